"""C15: orders on exponent vectors, enumeration of shifts and 0/1 permutations (utils.cpp, Monomial.cpp, Polynomial.cpp)."""
from common import CORE
from cxx2why import FSpec, Loop
O = ["order.Colex", "order.Degree"]
LEN = ["length a = length b", "length a <= 2147483647"]
SAME = ["forall j. i < j < length a -> a[j] = b[j]", "-1 <= i < length a"]
NAT = ["deg a <= 4294967295", "deg b <= 4294967295", "forall j. 0 <= j < length a -> 0 <= a[j]", "forall j. 0 <= j < length b -> 0 <= b[j]"]
U = [FSpec("a_grt_b(vec<u32>,vec<u32>)", ["a", "b"], LEN, ["result <-> colex_gt a b"], use=O, loops={0: Loop(SAME, "i + 1")}),
     FSpec("a_eq_b(vec<u32>,vec<u32>)", ["a", "b"], LEN, ["result <-> same_entries a b", "result <-> a == b"], use=O, loops={0: Loop(SAME, "i + 1")}),
     FSpec("a_grt_b_s(vec<u32>,vec<u32>)", ["a", "b"], LEN + NAT, ["result <-> shift_gt a b"], use=O,
           loops={0: Loop(["deg1 = sum a idx0"]), 1: Loop(["deg1 = deg a", "deg2 = sum b idx1"])})]
T = "tuple (old curr_per)"
U.append(FSpec("generate_next_permutation(vec<u32>)", ["curr_per"], ["0 < length curr_per <= 2147483647", "bin curr_per"],
               ["length curr_per = length (old curr_per)",
                "result.first -> tuple (old curr_per) result.second /\\ precedes (old curr_per) result.second",
                "result.first -> forall t. %s t -> not (precedes (old curr_per) t /\\ precedes t result.second)" % T,
                "not result.first -> all_ones (old curr_per)",
                "not result.first -> forall t. %s t -> not precedes (old curr_per) t" % T,
                "result.first -> exists i. 0 <= i < length result.second /\\ result.second[i] = 1"],
               writes=["curr_per"], use=O + ["order.Lex", "order.Tuples", "order.Steps"],
               loops={0: Loop(["0 <= i <= size", "num_of_ones = sum curr_per i"], "size - i"),
                      1: Loop(["size - 2 - num_of_ones <= i <= size - 1", "length new_per = size",
                               "forall j. 0 <= j < size -> new_per[j] = if j > i then 1 else 0"], "i + 1", after="assert { lowest new_per (num_of_ones + 1) };")},
               entry="let ghost per0 = curr_per in", exit="sum_le per0 (length per0); deg_full per0 (length per0);"))
SHP = ["forall i. 0 <= i < length result -> length result[i] = r /\\ bin result[i] /\\ not all_ones result[i]",
       "forall t. bin t -> length t = r -> not all_ones t -> exists i. 0 <= i < length result /\\ result[i] == t",
       "forall i j. 0 <= i < j < length result -> not result[i] == result[j]",
       "forall i j. 0 <= i < j < length result -> deg result[i] <= deg result[j]",
       "forall i j. 0 <= i < j < length result -> shift_gt result[j] result[i]"]
U.append(FSpec("generate_possible_shifts(u32)", ["r"], ["1 <= r <= 32"], SHP, use=O + ["int.Power", "int.EuclideanDivision", "order.Tuples", "order.Pow", "order.Digits", "order.Sorted"],
               opts=dict(sort=("sort_shifts", "shift_gt {b} {a}")),
               loops={0: Loop(["exp >= 0", "1 <= size <= 4294967296", "exp = 0 -> size = power 2 r", "exp > 0 -> size * power base exp = power 2 r /\\ 2 <= base <= 4294967296"], "exp",
                              begin="square_step size base exp r;"),
                      1: Loop(["1 <= counter <= power 2 r - 1", "length result_ = counter", "forall c. 0 <= c < counter -> tuple_of c r result_[c]"], "power 2 r - 1 - counter",
                              before="assert { tuple_of 0 r result_[0] };", begin="let ghost onr = result_ in",
                              end="assert { length result_ = counter + 1 }; assert { forall k. 0 <= k < counter -> result_[k] = onr[k] }; assert { tuple_of counter r result_[counter] }; assert { vec_ok result_[counter] /\\ forall i. 0 <= i < length result_[counter] -> in_u32 result_[counter][i] }; assert { forall k. 0 <= k < counter -> vec_ok onr[k] };"),
                      2: Loop(["0 <= i <= r", "length tuple = r", "current_value = div counter (power 2 i)",
                               "forall j. 0 <= j < i -> tuple[r - 1 - j] = mod (div counter (power 2 j)) 2"], "r - i", begin="div_pow counter i;",
                              before="assert { div counter (power 2 0) = counter };", after="digits_tuple counter r tuple;")},
               exit="sorted_shifts unsorted result_ r;"))
a, b = "this.monomial_powers", "m2.monomial_powers"
MN = ["length %s = length %s" % (a, b), "deg %s <= 4294967295" % a, "deg %s <= 4294967295" % b]
MN += ["length %s <= 4294967295" % a, "forall j. 0 <= j < length %s -> 0 <= %s[j]" % (a, a), "forall j. 0 <= j < length %s -> 0 <= %s[j]" % (b, b)]
ML = Loop(["0 <= i <= length %s" % a, "deg1 = sum %s i" % a, "deg2 = sum %s i" % b], "length %s - i" % a)
U.append(FSpec("Monomial::operator<(Monomial)", ["m2"], MN, ["result <-> graded_lt %s %s" % (a, b)], use=O + ["order.Lex"], loops={0: ML}))
U.append(FSpec("Monomial::operator>(Monomial)", ["m2"], MN, ["result <-> graded_lt %s %s" % (b, a)], use=O + ["order.Lex"], loops={0: ML}))
GROUPS = [dict(unit="u_order.cpp", specs=U)]
FACTS = []
HARNESS = [dict(src="c15.cpp", repo=CORE, budget=(6, 60))]
NOTE = "Proof for vectors of any length (up to 2^31-1, total degrees below 2^32) that each comparison decides the stated order, that the orders are strict and total, that one step through the 0/1 tuples is the successor, and that the shift enumeration (1..32 variables) is complete, duplicate free and ordered. Assumed: the standard contracts of std::sort and std::next_permutation."
ASSUMPTIONS = ["std::sort sorts by the comparator when it is a strict weak order (that it is one is an obligation); std::next_permutation returns the lexicographic successor"]
