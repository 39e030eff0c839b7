(* Orders on exponent vectors and 0/1 tuples (C15). *)
module Colex
  use int.Int
  use seq.Seq
  (* the highest position where they differ decides *)
  predicate colex_gt (a b : seq int) =
    exists k. 0 <= k < length a /\ a[k] > b[k] /\ forall j. k < j < length a -> a[j] = b[j]
  predicate same_entries (a b : seq int) = forall j. 0 <= j < length a -> a[j] = b[j]
end

module ColexLaws
  use int.Int
  use seq.Seq
  use Colex
  lemma irreflexive: forall a. not colex_gt a a
  lemma asymmetric: forall a b. length a = length b -> colex_gt a b -> not colex_gt b a
  lemma transitive: forall a b c. length a = length b -> length b = length c -> colex_gt a b -> colex_gt b c -> colex_gt a c
  lemma not_equal: forall a b. colex_gt a b -> not same_entries a b
  let rec lemma total_from (a b : seq int) (k : int) requires { length a = length b /\ 0 <= k <= length a }
    requires { forall j. k <= j < length a -> a[j] = b[j] }
    ensures { same_entries a b \/ colex_gt a b \/ colex_gt b a } variant { k }
  = if k > 0 then (if pure { a[k - 1] = b[k - 1] } then total_from a b (k - 1) else ())
  let lemma total (a b : seq int) requires { length a = length b } ensures { same_entries a b \/ colex_gt a b \/ colex_gt b a } = total_from a b (length a)
  lemma equal: forall a b. length a = length b -> same_entries a b -> a == b
end

module Degree
  use int.Int
  use seq.Seq
  use Colex
  let rec ghost function sum (a : seq int) (n : int) : int requires { 0 <= n <= length a } variant { n }
  = if n = 0 then 0 else sum a (n - 1) + a[n - 1]
  function deg (a : seq int) : int = sum a (length a)
  let rec lemma sum_bounds (a : seq int) (n m : int) requires { 0 <= n <= m <= length a } requires { forall i. 0 <= i < length a -> 0 <= a[i] }
    ensures { 0 <= sum a n <= sum a m } variant { m }
  = if n < m then sum_bounds a n (m - 1) else if n > 0 then sum_bounds a (n - 1) (m - 1)
  predicate nat_entries (a : seq int) = forall i. 0 <= i < length a -> 0 <= a[i] <= 4294967295
  (* the order used for shifts: total degree, then reversed colexicographic *)
  predicate shift_gt (a b : seq int) = deg a > deg b \/ (deg a = deg b /\ colex_gt b a)
end

module DegreeLaws
  use int.Int
  use seq.Seq
  use Degree
  use Colex
  use ColexLaws
  lemma s_irreflexive: forall a. not shift_gt a a
  lemma s_asymmetric: forall a b. length a = length b -> shift_gt a b -> not shift_gt b a
  lemma s_transitive: forall a b c. length a = length b -> length b = length c -> shift_gt a b -> shift_gt b c -> shift_gt a c
  lemma s_total: forall a b. length a = length b -> same_entries a b \/ shift_gt a b \/ shift_gt b a
end

module Lex
  use int.Int
  use seq.Seq
  use Degree
  use Colex
  (* std::vector's own order *)
  predicate lex_lt (a b : seq int) =
    exists k. 0 <= k <= length a /\ k <= length b /\ (forall j. 0 <= j < k -> a[j] = b[j]) /\
      ((k = length a /\ k < length b) \/ (k < length a /\ k < length b /\ a[k] < b[k]))
  val vlex_lt (a b : seq int) : bool ensures { result <-> lex_lt a b }
  predicate graded_lt (a b : seq int) = deg a < deg b \/ (deg a = deg b /\ lex_lt b a)
end

module LexLaws
  use int.Int
  use seq.Seq
  use Lex
  use Degree
  use Colex
  lemma l_irreflexive: forall a. not lex_lt a a
  lemma l_asymmetric: forall a b. lex_lt a b -> not lex_lt b a
  lemma l_transitive: forall a b c. lex_lt a b -> lex_lt b c -> lex_lt a c
  let rec lemma l_total_from (a b : seq int) (k : int) requires { length a = length b /\ 0 <= k <= length a }
    requires { forall j. 0 <= j < k -> a[j] = b[j] }
    ensures { same_entries a b \/ lex_lt a b \/ lex_lt b a } variant { length a - k }
  = if k < length a then (if pure { a[k] = b[k] } then l_total_from a b (k + 1) else ())
  let lemma l_total (a b : seq int) requires { length a = length b } ensures { same_entries a b \/ lex_lt a b \/ lex_lt b a } = l_total_from a b 0
  (* graded: total degree, then the larger vector is the smaller monomial *)
  lemma g_irreflexive: forall a. not graded_lt a a
  lemma g_asymmetric: forall a b. length a = length b -> graded_lt a b -> not graded_lt b a
  lemma g_transitive: forall a b c. length a = length b -> length b = length c -> graded_lt a b -> graded_lt b c -> graded_lt a c
  lemma g_total: forall a b. length a = length b -> same_entries a b \/ graded_lt a b \/ graded_lt b a
end

module Tuples
  use int.Int
  use Degree
  use int.EuclideanDivision
  use int.Power
  use seq.Seq
  predicate bin (t : seq int) = forall i. 0 <= i < length t -> 0 <= t[i] <= 1
  predicate all_ones (t : seq int) = forall i. 0 <= i < length t -> t[i] = 1
  (* binary value of the first k digits, most significant first *)
  let rec ghost function v (t : seq int) (k : int) : int requires { 0 <= k <= length t } variant { k }
  = if k = 0 then 0 else 2 * v t (k - 1) + t[k - 1]
  function value (t : seq int) : int = v t (length t)
  predicate tuple_of (c r : int) (t : seq int) = length t = r /\ bin t /\ value t = c
  let rec lemma v_range (t : seq int) (k : int) requires { bin t /\ 0 <= k <= length t } ensures { 0 <= v t k < power 2 k } variant { k }
  = if k > 0 then v_range t (k - 1)
  let rec lemma v_inj (s t : seq int) (k : int) requires { bin s /\ bin t /\ 0 <= k <= length t /\ length s = length t /\ v s k = v t k }
    ensures { forall i. 0 <= i < k -> s[i] = t[i] } variant { k }
  = if k > 0 then begin assert { s[k - 1] = t[k - 1] }; v_inj s t (k - 1) end
  let rec lemma v_ones (t : seq int) (k : int) requires { 0 <= k <= length t } requires { forall i. 0 <= i < k -> t[i] = 1 }
    ensures { v t k = power 2 k - 1 } variant { k }
  = if k > 0 then begin v_ones t (k - 1); assert { power 2 k = 2 * power 2 (k - 1) } end
  let rec lemma v_ones_inv (t : seq int) (k : int) requires { bin t /\ 0 <= k <= length t } requires { v t k = power 2 k - 1 }
    ensures { forall i. 0 <= i < k -> t[i] = 1 } variant { k }
  = if k > 0 then begin v_range t (k - 1); assert { power 2 k = 2 * power 2 (k - 1) }; assert { t[k - 1] = 1 /\ v t (k - 1) = power 2 (k - 1) - 1 };
      v_ones_inv t (k - 1) end
  lemma ones_value: forall t. bin t -> (value t = power 2 (length t) - 1 <-> all_ones t)
  lemma value_range: forall t. bin t -> 0 <= value t < power 2 (length t)
  lemma value_inj: forall s t. bin s -> bin t -> length s = length t -> value s = value t -> s == t
  let rec lemma pow_mono (i j : int) requires { 0 <= i <= j } ensures { 1 <= power 2 i <= power 2 j } variant { j }
  = if i < j then pow_mono i (j - 1) else if i > 0 then pow_mono (i - 1) (j - 1)
  let lemma pow32 () ensures { power 2 32 = 4294967296 }
  = assert { power 2 4 = 16 by power 2 4 = power 2 2 * power 2 2 by power 2 2 = 4 by power 2 2 = 2 * power 2 1 };
    assert { power 2 8 = 256 by power 2 (4 + 4) = power 2 4 * power 2 4 };
    assert { power 2 16 = 65536 by power 2 (8 + 8) = power 2 8 * power 2 8 };
    assert { power 2 32 = 4294967296 by power 2 (16 + 16) = power 2 16 * power 2 16 }
  let rec lemma sum_le (s : seq int) (k : int) requires { bin s /\ 0 <= k <= length s } ensures { 0 <= sum s k <= k } variant { k } = if k > 0 then sum_le s (k - 1)
end

module Pow
  use int.Int
  use int.Power
  use int.EuclideanDivision
  use Tuples
  let lemma pow_ge (b e : int) requires { b >= 2 /\ e >= 1 } ensures { power b e >= b } = ()
  let rec lemma pow_pos (b e : int) requires { b >= 1 /\ e >= 0 } ensures { power b e >= 1 } variant { e } = if e > 0 then pow_pos b (e - 1)
  let lemma pow_dbl (b q : int) requires { q >= 0 } ensures { power (b * b) q = power b (2 * q) }
  = assert { power (b * b) q = power b q * power b q }; assert { power b (q + q) = power b q * power b q }; assert { 2 * q = q + q }
  let lemma pow_sq (b e : int) requires { e >= 0 } ensures { power b e = power (b * b) (div e 2) * (if mod e 2 = 1 then b else 1) }
  = let ghost q = div e 2 in assert { e = 2 * q + mod e 2 /\ 0 <= mod e 2 < 2 }; pow_dbl b q;
    if pure { mod e 2 = 1 } then assert { power b (2 * q + 1) = b * power b (2 * q) } else assert { e = 2 * q }
  (* one step of repeated squaring towards 2^r <= 2^32 *)
  let lemma square_step (s b e r : int) requires { s >= 1 /\ b >= 2 /\ e > 0 /\ 0 <= r <= 32 /\ s * power b e = power 2 r }
    ensures { let q = div e 2 in let s' = if mod e 2 = 1 then s * b else s in 1 <= s' <= 4294967296 /\ 0 <= q < e /\ (q = 0 -> s' = power 2 r) /\
      (q > 0 -> b * b <= 4294967296 /\ b * b >= 2 /\ s' * power (b * b) q = power 2 r) }
  = pow_mono r 32; pow_sq b e; let ghost q = div e 2 in
    pow_pos (b * b) q;
    assert { let s' = if mod e 2 = 1 then s * b else s in s' * power (b * b) q = power 2 r };
    assert { let s' = if mod e 2 = 1 then s * b else s in 1 <= s' /\ s' <= s' * power (b * b) q };
    if q > 0 then begin assert { b * b >= 4 }; pow_ge (b * b) q; assert { let s' = if mod e 2 = 1 then s * b else s in b * b <= s' * power (b * b) q } end
    else assert { power (b * b) q = 1 }
end

module Digits
  use int.Int
  use int.Power
  use int.EuclideanDivision
  use seq.Seq
  use Tuples
  let lemma div_twice (c p : int) requires { c >= 0 /\ p > 0 } ensures { div c (2 * p) = div (div c p) 2 }
  = let ghost q = div c p in let ghost h = div q 2 in
    assert { c = p * q + mod c p /\ 0 <= mod c p < p }; assert { q = 2 * h + mod q 2 /\ 0 <= mod q 2 < 2 };
    assert { c = (2 * p) * h + (p * mod q 2 + mod c p) by p * q = p * (2 * h + mod q 2) };
    assert { 0 <= p * mod q 2 + mod c p < 2 * p by mod q 2 = 0 \/ mod q 2 = 1 };
    assert { h * (2 * p) <= c < h * (2 * p) + 2 * p }
  let lemma div_pow (c j : int) requires { c >= 0 /\ j >= 0 } ensures { div c (power 2 (j + 1)) = div (div c (power 2 j)) 2 }
  = div_twice c (power 2 j); assert { power 2 (j + 1) = 2 * power 2 j }
  let rec lemma digits_value (c r k : int) (t : seq int) requires { 0 <= c < power 2 r /\ length t = r /\ 0 <= k <= r }
    requires { forall j. 0 <= j < r -> t[r - 1 - j] = mod (div c (power 2 j)) 2 }
    ensures { v t k = div c (power 2 (r - k)) } variant { k }
  = if k > 0 then begin digits_value c r (k - 1) t; let ghost j = r - k in div_pow c j; assert { t[r - 1 - j] = mod (div c (power 2 j)) 2 };
      let ghost d = div c (power 2 j) in assert { d = 2 * div d 2 + mod d 2 };
      assert { r - (k - 1) = j + 1 }; assert { v t (k - 1) = div d 2 }; assert { t[k - 1] = mod d 2 by k - 1 = r - 1 - j }; assert { v t k = 2 * v t (k - 1) + t[k - 1] }; assert { v t k = d } end
    else assert { div c (power 2 r) = 0 }
  let lemma digit_bit (c r i : int) (t : seq int) requires { 0 <= i < r } requires { forall j. 0 <= j < r -> t[r - 1 - j] = mod (div c (power 2 j)) 2 } ensures { 0 <= t[i] <= 1 }
  = let ghost j = r - 1 - i in assert { t[r - 1 - j] = mod (div c (power 2 j)) 2 }; let ghost x = div c (power 2 j) in assert { 0 <= mod x 2 < 2 }; assert { r - 1 - j = i }
  let rec lemma digit_bits (c r k : int) (t : seq int) requires { 0 <= k <= r } requires { forall j. 0 <= j < r -> t[r - 1 - j] = mod (div c (power 2 j)) 2 }
    ensures { forall i. 0 <= i < k -> 0 <= t[i] <= 1 } variant { k }
  = if k > 0 then begin digit_bits c r (k - 1) t; digit_bit c r (k - 1) t end
  let lemma digits_tuple (c r : int) (t : seq int) requires { 0 <= c < power 2 r /\ length t = r }
    requires { forall j. 0 <= j < r -> t[r - 1 - j] = mod (div c (power 2 j)) 2 }
    ensures { tuple_of c r t }
  = digits_value c r r t; assert { power 2 0 = 1 }; assert { div c (power 2 0) = c };
    digit_bits c r r t; assert { bin t }
  let rec lemma v_zero (t : seq int) (k : int) requires { 0 <= k <= length t } requires { forall i. 0 <= i < length t -> t[i] = 0 } ensures { v t k = 0 } variant { k }
  = if k > 0 then v_zero t (k - 1)
  let lemma tuple_zero (r : int) (t : seq int) requires { length t = r } requires { forall i. 0 <= i < length t -> t[i] = 0 } ensures { tuple_of 0 r t } = v_zero t r
end

module Sorted
  use int.Int
  use seq.Seq
  use Degree
  predicate inverse (f g : int -> int) (n : int) = forall i. 0 <= i < n -> 0 <= f i < n /\ 0 <= g i < n /\ g (f i) = i /\ f (g i) = i
  predicate permuted (s t : seq (seq int)) = length s = length t /\
    exists f g : int -> int. inverse f g (length s) /\ forall i. 0 <= i < length s -> t[i] = s[f i] /\ s[i] = t[g i]
  (* the values of a comparison on the elements: it has to be a strict weak order there *)
  predicate weak_order_shift (s : seq (seq int)) = forall i j k. 0 <= i < length s -> 0 <= j < length s -> 0 <= k < length s ->
    not shift_gt s[i] s[i] /\ (shift_gt s[j] s[i] -> shift_gt s[k] s[j] -> shift_gt s[k] s[i]) /\
    (not shift_gt s[j] s[i] -> not shift_gt s[k] s[j] -> not shift_gt s[k] s[i])
  (* std::sort(begin, end, less) with less(a, b) = shift_gt b a *)
  val sort_shifts (s : seq (seq int)) : seq (seq int) requires { [@expl:comparator is a strict weak order] weak_order_shift s }
    ensures { permuted s result } ensures { forall i j. 0 <= i < j < length result -> not shift_gt result[i] result[j] }
  use Tuples
  use int.Power
  use Colex
  use DegreeLaws
  use ColexLaws
  let lemma weak_order_all (s : seq (seq int)) requires { forall i j. 0 <= i < length s -> 0 <= j < length s -> length s[i] = length s[j] } ensures { weak_order_shift s }
  = assert { forall i j k. 0 <= i < length s -> 0 <= j < length s -> 0 <= k < length s -> not shift_gt s[j] s[i] -> not shift_gt s[k] s[j] -> not shift_gt s[k] s[i]
      by length s[i] = length s[j] /\ length s[j] = length s[k] so
         if same_entries s[i] s[j] then s[i] == s[j] else if same_entries s[j] s[k] then s[j] == s[k] else shift_gt s[i] s[j] /\ shift_gt s[j] s[k] }
  predicate full (u : seq (seq int)) (r : int) = r >= 1 /\ length u = power 2 r - 1 /\ forall c. 0 <= c < power 2 r - 1 -> tuple_of c r u[c]
  let lemma distinct_values (u : seq (seq int)) (r : int) requires { full u r } ensures { forall i j. 0 <= i < length u -> 0 <= j < length u -> i <> j -> not u[i] == u[j] }
  = assert { forall i j. 0 <= i < length u -> 0 <= j < length u -> u[i] == u[j] -> value u[i] = value u[j] by v u[i] r = v u[j] r by u[i] = u[j] }
  let lemma covers (u : seq (seq int)) (r : int) (t : seq int) requires { full u r /\ bin t /\ length t = r /\ not all_ones t } ensures { exists c. 0 <= c < length u /\ u[c] == t }
  = assert { 0 <= value t < power 2 r }; assert { value t <> power 2 r - 1 }; assert { tuple_of (value t) r u[value t] }; assert { u[value t] == t }
  let lemma sorted_shifts (u s : seq (seq int)) (r : int) requires { full u r /\ permuted u s }
    requires { forall i j. 0 <= i < j < length s -> not shift_gt s[i] s[j] }
    ensures { forall i. 0 <= i < length s -> length s[i] = r /\ bin s[i] /\ not all_ones s[i] }
    ensures { forall t. bin t -> length t = r -> not all_ones t -> exists i. 0 <= i < length s /\ s[i] == t }
    ensures { forall i j. 0 <= i < j < length s -> not s[i] == s[j] }
    ensures { forall i j. 0 <= i < j < length s -> shift_gt s[j] s[i] }
  = assert { forall c. 0 <= c < length u -> not all_ones u[c] by value u[c] <> power 2 r - 1 };
    assert { forall i. 0 <= i < length s -> exists k. 0 <= k < length u /\ s[i] = u[k] };
    assert { forall i k. 0 <= i < length s -> 0 <= k < length u -> s[i] = u[k] -> length s[i] = r /\ bin s[i] /\ not all_ones s[i] };
    assert { forall i. 0 <= i < length s -> length s[i] = r };    assert { forall i. 0 <= i < length s -> bin s[i] };    assert { forall i. 0 <= i < length s -> not all_ones s[i] };
    assert { forall t. bin t -> length t = r -> not all_ones t -> exists i. 0 <= i < length s /\ s[i] == t
       by exists c. 0 <= c < length u /\ u[c] == t };
    assert { forall f g : int -> int. inverse f g (length u) -> (forall i. 0 <= i < length u -> s[i] = u[f i]) -> forall i j. 0 <= i < j < length s -> not s[i] == s[j] by f i <> f j so 0 <= f i < length u /\ 0 <= f j < length u so not u[f i] == u[f j] };
    assert { forall i j. 0 <= i < j < length s -> not s[i] == s[j] };
    assert { forall i j. 0 <= i < j < length s -> shift_gt s[j] s[i] by length s[i] = length s[j] so not same_entries s[i] s[j] }
end

module Steps
  use int.Int
  use seq.Seq
  use seq.Occ
  use Colex
  use Lex
  use Degree
  use Tuples
  predicate rearranged (s t : seq int) = length s = length t /\ forall x. occ_all x s = occ_all x t
  (* std::next_permutation on the whole vector *)
  val next_permutation (s : seq int) : (bool, seq int)
    returns { (b, r) -> rearranged s r /\
      (b -> lex_lt s r /\ forall t. rearranged s t -> not (lex_lt s t /\ lex_lt t r)) /\
      (not b -> (forall t. rearranged s t -> not lex_lt s t) /\ (forall t. rearranged s t -> not lex_lt t r)) }
  function prefix (s : seq int) (k : int) : seq int = s[0..k]
  let rec lemma occ_prefix (s : seq int) (k x : int) requires { 0 <= k < length s }
    ensures { occ x s 0 (k + 1) = occ x s 0 k + (if s[k] = x then 1 else 0) } variant { 0 } = ()
  let rec lemma occ_deg (s : seq int) (k : int) requires { bin s /\ 0 <= k <= length s }
    ensures { occ 1 s 0 k = sum s k /\ occ 0 s 0 k = k - sum s k /\ forall x. x <> 0 -> x <> 1 -> occ x s 0 k = 0 } variant { k }
  = if k > 0 then occ_deg s (k - 1)
  let lemma same_count (s t : seq int) requires { bin s /\ bin t /\ length s = length t /\ deg s = deg t } ensures { rearranged s t }
  = occ_deg s (length s); occ_deg t (length t); assert { forall x. occ_all x s = occ_all x t by x = 0 \/ x = 1 \/ (x <> 0 /\ x <> 1) }
  let rec lemma occ_mem (s : seq int) (k x : int) requires { 0 <= k <= length s } ensures { occ x s 0 k >= 0 /\ (occ x s 0 k = 0 <-> forall i. 0 <= i < k -> s[i] <> x) } variant { k }
  = if k > 0 then occ_mem s (k - 1) x
  let lemma elem_bin (s t : seq int) (i : int) requires { bin s /\ rearranged s t /\ 0 <= i < length t } ensures { 0 <= t[i] <= 1 }
  = let ghost x = pure { t[i] } in occ_mem t (length t) x; occ_mem s (length s) x; assert { occ_all x s = occ_all x t };
    assert { occ x s 0 (length s) <> 0 }; assert { exists j. 0 <= j < length s /\ s[j] = x }
  let lemma stays_bin (s t : seq int) requires { bin s /\ rearranged s t } ensures { bin t /\ deg t = deg s }
  = assert { bin t }; occ_deg s (length s); occ_deg t (length t); assert { occ_all 1 s = occ_all 1 t }
  predicate precedes (s t : seq int) = deg s < deg t \/ (deg s = deg t /\ lex_lt s t)
  predicate tuple (s t : seq int) = bin t /\ length t = length s
  (* 0..01..1 with k ones comes first among the tuples with k ones *)
  predicate lowest (t : seq int) (k : int) = 0 <= k <= length t /\ forall i. 0 <= i < length t -> t[i] = if i < length t - k then 0 else 1
  let rec lemma sum_gap (s : seq int) (i k : int) requires { bin s /\ 0 <= i <= k <= length s } ensures { sum s k <= sum s i + (k - i) } variant { k } = if i < k then sum_gap s i (k - 1)
  let rec lemma sum_same (s t : seq int) (k : int) requires { 0 <= k <= length s /\ k <= length t } requires { forall i. 0 <= i < k -> s[i] = t[i] } ensures { sum s k = sum t k } variant { k } = if k > 0 then sum_same s t (k - 1)
  let rec lemma sum_lowest (t : seq int) (k i : int) requires { lowest t k /\ 0 <= i <= length t } ensures { sum t i = if i < length t - k then 0 else i - (length t - k) } variant { i } = if i > 0 then sum_lowest t k (i - 1)
  lemma lowest_bin: forall t k. lowest t k -> bin t /\ deg t = k
  let lemma lowest_min_at (s t : seq int) (k j : int) requires { lowest t k /\ bin s /\ length s = length t /\ deg s = k }
    requires { 0 <= j < length s /\ (forall i. 0 <= i < j -> s[i] = t[i]) } ensures { not s[j] < t[j] }
  = if pure { s[j] < t[j] } then begin
      sum_same s t j; sum_lowest t k j; assert { t[j] = 1 /\ s[j] = 0 /\ j >= length t - k };
      assert { sum s (j + 1) = sum s j }; sum_gap s (j + 1) (length s);
      assert { sum s (length s) <= (j - (length t - k)) + (length s - (j + 1)) }; assert { false } end
  lemma lowest_min: forall s t k. lowest t k -> bin s -> length s = length t -> deg s = k -> not lex_lt s t
  let rec lemma deg_full (s : seq int) (k : int) requires { bin s /\ 0 <= k <= length s } ensures { sum s k = k <-> forall i. 0 <= i < k -> s[i] = 1 } variant { k }
  = if k > 0 then begin deg_full s (k - 1); sum_le s (k - 1) end
end
