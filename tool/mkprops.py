import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
S="source/";H="source/include/firefly/"
p("C01","Finite-field arithmetic is exact modulo the prime",
 "For every 63-bit prime modulus and all operands, field addition, subtraction, multiplication, division by a nonzero element, negation, inversion and powers (by machine integers of either sign, or by field elements whose canonical representative is the exponent) return the exact residue, and building a field element from a machine integer or a big integer of either sign returns its residue. Every result is the canonical representative in [0, p), so that equal residues compare equal; dividing by zero returns zero.",
 ["inputs","configurations"],"all odd prime moduli below 2^63, all canonical operands, all integer arguments of every supported integer type",
 "the tests touch a handful of residues of a few primes; rounding in the floating-point based modular product and sign/canonical-form corner cases occur for sparse operand sets",
 [S+"FFInt.cpp",H+"FFInt.hpp"],[("mod_mul / mod_pow / mod_inv",S+"FFInt.cpp"),("FFInt constructors and operators",S+"FFInt.cpp"),("FFInt(const T), pow(const T&)",H+"FFInt.hpp")],
 [("FFInt::n","canonical residue",H+"FFInt.hpp"),("FFInt::p","modulus",S+"FFInt.cpp")],["the residue stored in a field element"])
p("C02","Bunched field arithmetic equals scalar arithmetic lane by lane",
 "For every bunch size, each arithmetic operation, power, comparison-free constructor and conversion on a bunched field vector produces in every lane exactly what the scalar operation produces on that lane's operands, including mixed vector/scalar forms, and changes no other lane. Element access accepts exactly the lanes 0..N-1.",
 ["inputs","configurations"],"all bunch sizes, all lane contents, all operand forms",
 "tests use one bunch size and one example function; a wrong lane or a wrong mixed-form overload is only visible for particular contents",
 [S+"FFIntVec.cpp",H+"FFIntVec.hpp"],[("FFIntVec<N> operators",S+"FFIntVec.cpp")],observe=["lane values"])
p("C03","Every built-in modulus is a distinct 63-bit prime",
 "The built-in list of moduli contains only primes, each larger than 2^62 and smaller than 2^63, and no prime occurs twice.",
 ["configurations"],"every entry of the table",
 "tests use the first few entries only; a composite or repeated entry silently breaks inversion or Chinese remaindering",
 [H+"ReconstHelper.hpp",S+"ReconstHelper.cpp"],[("primes()",S+"ReconstHelper.cpp")])
p("C04","Chinese remaindering returns the unique combined residue",
 "Combining a residue modulo m1 with a residue modulo m2 for coprime positive moduli returns a pair (a, n) with n = m1*m2, a congruent to the inputs modulo m1 and m2, and 0 <= a < n whenever the inputs are canonical residues.",
 ["inputs"],"all coprime positive moduli and all residues, of unbounded size",
 "tests only combine a few primes for a few coefficients",
 [S+"utils.cpp",S+"PolyReconst.cpp",S+"RatReconst.cpp"],[("run_chinese_remainder",S+"utils.cpp")])
p("C05","Rational-number reconstruction is sound and complete",
 "Rational reconstruction of a residue a modulo an odd modulus p, when it reports success, returns a reduced fraction n/d with positive d coprime to the numerator, n = a*d (mod p) and 2*n^2 <= p, 2*d^2 <= p; and whenever such a fraction exists, it reports success and returns exactly that fraction. The maximal-quotient variant, when it reports success, returns a reduced fraction n/d with n = a*d (mod p) and |n|*d*1024*b < p, where b is the bit length of p.",
 ["inputs"],"all residues and all moduli, of unbounded size",
 "tests reconstruct a handful of small coefficients; boundary cases around sqrt(p/2) and non-coprime remainders are never reached",
 [S+"utils.cpp"],[("get_rational_coef",S+"utils.cpp"),("get_rational_coef_mqrr",S+"utils.cpp")])
p("C06","Exact rational numbers are canonical and exact",
 "Every rational number value built or computed by the library is in lowest terms with a positive denominator, sums, differences, products and negations equal the exact rational result, operators taking their operands by value semantics leave them unchanged, and comparison for equality agrees with mathematical equality.",
 ["inputs"],"all numerators and nonzero denominators of unbounded size",
 "tests compare few final coefficients; sign and reduction corner cases are not enumerated",
 [S+"RationalNumber.cpp",S+"Monomial.cpp"],[("RationalNumber operators",S+"RationalNumber.cpp")])
p("C07","Multivariate polynomials over the field form a ring homomorphic to evaluation",
 "Evaluating a multivariate polynomial at any point gives the sum over its monomials of coefficient times the product of variable powers, and sums, differences, products, scalar products and quotients, products with a variable, removal of zero terms and homogenisation yield polynomials whose values at every point are the corresponding field operations on the operands' values, whatever the order of the terms and whether or not terms coincide or cancel; a shift of the variables yields the polynomial evaluated at the shifted point.",
 ["inputs"],"all polynomials in any number of variables, all points, all scalars",
 "tests see a few polynomials; coefficient collisions and cancellation are data dependent",
 [S+"PolynomialFF.cpp",H+"PolynomialFF.hpp"],[("PolynomialFF::calc and operators",S+"PolynomialFF.cpp")])
p("C08","Dense univariate polynomial algebra is exact",
 "For dense univariate polynomials over the field, addition, subtraction, multiplication, scalar operations, reversal, trimming and degree are exact (also when an operand is the object itself), Euclidean division by a nonzero polynomial returns quotient and remainder with a = q*b + r and deg r < deg b, and the greatest common divisor divides both arguments and is a combination of them.",
 ["inputs"],"all coefficient lists with nonzero divisor",
 "the factor-scan tests exercise a few polynomials; leading-coefficient cancellation and degree-drop cases are not",
 [S+"Poly.cpp",H+"Poly.hpp"],[("Poly operators, Poly::get_deg/shrink_to_fit/rev, fast_euclidean_division, gcd",S+"Poly.cpp")])
p("C09","Vandermonde systems are solved exactly",
 "Given pairwise distinct nonzero evaluation ratios v_i and right-hand sides f_k = sum_i x_i * v_i^(k+1), the Vandermonde solver returns exactly the coefficients x_i attached to their own monomials, for every size of system.",
 ["inputs"],"all system sizes, all distinct nonzero nodes, all right-hand sides",
 "tests solve the few systems that the example function produces",
 [S+"utils.cpp",S+"PolyReconst.cpp",S+"RatReconst.cpp"],[("solve_vandermonde_system",S+"utils.cpp"),("PolyReconst::solve_transposed_vandermonde",S+"PolyReconst.cpp")])
p("C10","Dense linear algebra over the field is exact",
 "For every regular square system the dense Gauss solver returns the unique solution and the inverse routine returns the matrix inverse. LU decomposition with pivoting yields, for every square matrix, factors and a permutation whose product is the row-permuted input; from them solving and inverting a regular system are exact, and the determinant is exact including its sign and zero for singular matrices.",
 ["inputs"],"all sizes and all matrices, with any pivoting pattern",
 "the tests solve only a few non-degenerate matrices; zero pivots and permutations are data dependent",
 [H+"DenseSolver.hpp"],[("solve_gauss_system, calc_inverse, calc_lu_decomposition, solve_lu, calc_inverse_lu, calc_determinant_lu",H+"DenseSolver.hpp")])
p("C11","Univariate interpolation reproduces the sampled function",
 "The Thiele interpolator, fed with values of a function at pairwise distinct points, represents a continued fraction (with x/0 read as 0) that takes exactly the sampled values at all accepted points, the canonical form it returns is a quotient of polynomials that has the value of the fraction at every point where no inner value of the fraction vanishes, and it reports completion exactly if the next sampled value is reproduced. The Newton coefficients computed from values at powers of the anchor point, and the polynomial of degree below the number of points they are converted to, reproduce all these values.",
 ["inputs","histories"],"all sequences of distinct points and values, any length",
 "tests use one function; vanishing denominators and repeated early agreement are data dependent",
 [S+"FFThieleInterpolator.cpp",S+"PolyReconst.cpp"],[("ThieleInterpolator::add_point, comp_ai, iterate_canonical",S+"FFThieleInterpolator.cpp"),("PolyReconst::comp_ai, construct_canonical",S+"PolyReconst.cpp")])
p("C12","Every evaluation mode of a parsed expression gives the same exact value",
 "For a parsed collection of expressions, plain evaluation (while the reverse-Polish form is kept), pre-evaluated evaluation in both forms, and bunched evaluation all return for each expression, in order, exactly the value its reverse-Polish form denotes in the current field, for all variable values at which no division by zero occurs and negative exponents below 2^31; this stays true after the modulus changes and the tokens are precomputed again, after functions are added, and after duplicate removal (equality is decided at two random points) or trimming for the expressions that remain.",
 ["inputs","programs","histories"],"all token sequences (well-formed), all variable values, all prime changes",
 "tests parse a few fixed expressions and compare a few values",
 [S+"ShuntingYardParser.cpp",H+"ShuntingYardParser.hpp"],[("evaluate / evaluate_pre / precompute / precompute_tokens / trim",H+"ShuntingYardParser.hpp")])
p("C13","Expression text is parsed and printed without changing its value",
 "Parsing an expression text yields a function whose value at every point is the value of the text read with usual precedence, left associativity and unary signs (at the start, after an opening parenthesis, and in the runs +- and -+). Texts are built from integers and variable names (at most 17 characters) with + - * / ^ and parentheses (in files also blanks, tabs and line breaks); the exponent of a power is a number or stands in parentheses, is written without a further power behind it, and a negative one is a single number. The text (plain, factored and Horner form) printed for a reconstructed polynomial or rational function, when parsed again, denotes the same function.",
 ["programs","inputs"],"all expressions over the documented grammar; all polynomials and rational functions",
 "tests parse a few fixed strings",
 [S+"ShuntingYardParser.cpp",S+"HornerGenerator.cpp",S+"Polynomial.cpp",S+"RationalFunction.cpp"],[("ShuntingYardParser::parse, is_operator, is_operand, is_variable, get_weight",S+"ShuntingYardParser.cpp"),("generate_horner_*",S+"HornerGenerator.cpp")])
p("C14","Probe bunching distributes work without loss or overshoot",
 "For every nonempty queue, thread count and maximum bunch size that is a power of two, the computed bunch size is a power of two between 1 and the maximum and never exceeds the queue, and the number of jobs assigned to a set of threads is at least 1 and at most the queue length.",
 ["inputs","configurations"],"all 32-bit queue lengths, thread counts and admissible maximum bunch sizes",
 "tests run with one thread count and one or two bunch sizes",
 [S+"utils.cpp"],[("compute_bunch_size, compute_job_number",S+"utils.cpp")])
p("C15","Monomial orderings are strict total orders and enumerations are complete",
 "The exponent-vector comparison is the strict colexicographic order (irreflexive, transitive, total together with equality), the shift enumeration returns all 0/1 tuples except the all-ones tuple exactly once ordered by number of ones, and stepping through 0/1 permutations visits every nonzero tuple and then reports the end.",
 ["inputs","histories"],"all exponent vectors of equal length, all lengths, the whole stepping history",
 "tests use at most four variables",
 [S+"utils.cpp"],[("a_grt_b, a_eq_b, a_grt_b_s, generate_possible_shifts, generate_next_permutation",S+"utils.cpp")])
p("C16","Random numbers are valid field elements and reproducible",
 "Random field elements drawn for anchor points and shifts are nonzero canonical residues of the current modulus, the sequence drawn after seeding depends only on the seed and follows the published generator.",
 ["inputs","histories"],"all seeds, all moduli, all positions in the sequence",
 "tests use fixed defaults and a few draws",
 [S+"BaseReconst.cpp",H+"BaseReconst.hpp"],[("BaseReconst::get_rand_64, set_seed, pcg/xoshiro state",S+"BaseReconst.cpp")])
p("C17","Reconstruction returns exactly the black-box functions",
 "Given a black box evaluating multivariate rational functions with rational coefficients, a finished reconstruction returns functions equal to them, for every ordering of variables, factor scan, shift scan, safe mode and bunch size.",
 ["inputs","configurations","programs"],"all rational black boxes and all reconstruction options","tests reconstruct one example function per mode",
 [S+"RatReconst.cpp",S+"PolyReconst.cpp",H+"Reconstructor.hpp"],[("Reconstructor::reconstruct",H+"Reconstructor.hpp")])
p("C18","Interrupted reconstructions resume to the same result",
 "A reconstruction that is stopped at any point after saving its state and is resumed from the saved files finishes with the same functions as an uninterrupted one.",
 ["crash_points","histories"],"every point at which the process may stop, every set of saved files","one stop point is tested",
 [S+"RatReconst.cpp",H+"Reconstructor.hpp"],[("resume_from_saved_state, save_state",H+"Reconstructor.hpp")])
p("C19","The result does not depend on the thread schedule",
 "For every interleaving of worker threads, all scheduled probes are delivered exactly once to their reconstruction object, the reconstruction terminates, and the functions returned are the same as with a single thread.",
 ["schedules"],"all interleavings and thread counts","tests observe a few schedules",
 [H+"Reconstructor.hpp",H+"ThreadPool.hpp"],[("ThreadPool, Reconstructor job queues",H+"Reconstructor.hpp")])
p("C20","Distributed runs return the single-node result",
 "With any number of worker processes, every probe sent to a worker is answered exactly once with the value of the black box at that point, and the reconstructed functions equal those of a run without workers.",
 ["schedules","configurations"],"all message orders and process counts","tests run with two processes",
 [H+"MPIWorker.hpp",H+"Reconstructor.hpp"],[("MPIWorker::run",H+"MPIWorker.hpp")])
open("/verif/properties.jsonl","w").write("\n".join(json.dumps(x) for x in P)+"\n")
