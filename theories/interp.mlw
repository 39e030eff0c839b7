(* Thiele's continued fraction and Newton's form. *)
module Thiele
  use int.Int
  use seq.Seq
  use ffield.Field
  use fflaws.Laws
  (* a[k] + (y - t[k]) / (a[k+1] + (y - t[k+1]) / ( .. / a[i])) *)
  let rec ghost function cf (a t : seq ff) (k i : int) (y : ff) : ff variant { i - k }
  = if k >= i then pure { a[i] } else fadd (pure { a[k] }) (fdiv (fsub y (pure { t[k] })) (cf a t (k + 1) i y))
  (* the inverse differences of the value f at x *)
  let rec ghost function chain (a t : seq ff) (k : int) (x f : ff) : ff variant { k }
  = if k <= 0 then f else fdiv (fsub x (pure { t[k - 1] })) (fsub (chain a t (k - 1) x f) (pure { a[k - 1] }))
  let rec ghost cf_eq (a t b u : seq ff) (k i : int) (y : ff)
    requires { 0 <= k <= i } requires { forall j. 0 <= j <= i -> a[j] = b[j] } requires { forall j. 0 <= j < i -> t[j] = u[j] }
    ensures { cf a t k i y = cf b u k i y } variant { i - k }
  = if k < i then cf_eq a t b u (k + 1) i y
  let rec ghost chain_eq (a t b u : seq ff) (k : int) (x f : ff)
    requires { 0 <= k } requires { forall j. 0 <= j < k -> a[j] = b[j] } requires { forall j. 0 <= j < k -> t[j] = u[j] }
    ensures { chain a t k x f = chain b u k x f } variant { k }
  = if k > 0 then chain_eq a t b u (k - 1) x f
  let rec ghost cf_chain (a t : seq ff) (k i : int) (x f : ff)
    requires { 0 <= k <= i } requires { forall j. 0 <= j < i -> t[j] <> x } requires { a[i] = chain a t i x f }
    ensures { cf a t k i x = chain a t k x f } variant { i - k }
  = if k < i then begin
      cf_chain a t (k + 1) i x f;
      let ghost r = chain a t k x f in let ghost v = pure { a[k] } in let ghost d = pure { fsub x t[k] } in
      law_sub_ne x (pure { t[k] });
      assert { chain a t (k + 1) x f = fdiv d (fsub r v) };
      if pure { r <> v } then law_cf_back v r d else assert { fdiv d (fsub r v) = fzero }
    end
  (* a node does not see the coefficients behind its own *)
  let rec ghost cf_node (a t : seq ff) (k j i : int)
    requires { 0 <= k <= j <= i } ensures { cf a t k i t[j] = cf a t k j t[j] } variant { j - k }
  = if k < j then cf_node a t (k + 1) j i
  (* numerator and denominator *)
  let rec ghost function cn (a t : seq ff) (k i : int) (y : ff) : ff variant { i - k }
  = if k >= i then pure { a[i] } else fadd (fmul (pure { a[k] }) (cn a t (k + 1) i y)) (fmul (fsub y (pure { t[k] })) (cd a t (k + 1) i y))
  with ghost function cd (a t : seq ff) (k i : int) (y : ff) : ff variant { i - k }
  = if k >= i then fone else cn a t (k + 1) i y
  let rec ghost frac_eq (a t u : seq ff) (k i : int) (y : ff)
    requires { 0 <= k <= i } requires { forall j. 0 <= j < i -> t[j] = u[j] } ensures { cn a t k i y = cn a u k i y /\ cd a t k i y = cd a u k i y } variant { i - k }
  = if k < i then frac_eq a t u (k + 1) i y
  predicate regular (a t : seq ff) (i : int) (y : ff) = forall j. 1 <= j <= i -> cf a t j i y <> fzero
  let rec ghost cf_frac (a t : seq ff) (k i : int) (y : ff)
    requires { 0 <= k <= i } requires { regular a t i y }
    ensures { cd a t k i y <> fzero /\ fdiv (cn a t k i y) (cd a t k i y) = cf a t k i y } ensures { k >= 1 -> cn a t k i y <> fzero } variant { i - k }
  = if k < i then begin
      cf_frac a t (k + 1) i y;
      assert { cd a t k i y = cn a t (k + 1) i y };
      law_frac_step (pure { a[k] }) (cn a t (k + 1) i y) (pure { fsub y t[k] }) (cd a t (k + 1) i y)
    end
  let ghost cf_frac_all (a t : seq ff) (i : int)
    requires { 0 <= i } ensures { forall y. regular a t i y -> cd a t 0 i y <> fzero /\ fdiv (cn a t 0 i y) (cd a t 0 i y) = cf a t 0 i y }
  = let lemma h (y : ff) requires { regular a t i y } ensures { cd a t 0 i y <> fzero /\ fdiv (cn a t 0 i y) (cd a t 0 i y) = cf a t 0 i y } = cf_frac a t 0 i y in ()
end
module ThielePop
  use int.Int
  use seq.Seq
  use ffield.Field
  use fflaws.Laws
  use Thiele
  (* the last node does not matter *)
  let ghost popped (a t : seq ff) : unit
    requires { 1 <= length a < length t }
    ensures { let u = t[.. length t - 1] in let i = length a - 1 in forall y. cn a t 0 i y = cn a u 0 i y /\ cd a t 0 i y = cd a u 0 i y /\ cf a t 0 i y = cf a u 0 i y /\ (regular a t i y -> regular a u i y) }
  = let ghost u = pure { t[.. length t - 1] } in let ghost i = length a - 1 in
    assert { forall j. 0 <= j < i -> u[j] = t[j] };
    let lemma h (j : int) (y : ff) requires { 0 <= j <= i } ensures { cf a t j i y = cf a u j i y } = cf_eq a t a u j i y in
    let lemma g (y : ff) ensures { cn a t 0 i y = cn a u 0 i y /\ cd a t 0 i y = cd a u 0 i y } = frac_eq a t u 0 i y in
    assert { forall y. regular a t i y -> regular a u i y by forall j. 1 <= j <= i -> cf a u j i y = cf a t j i y }
end
module Newton
  use int.Int
  use seq.Seq
  use ffield.Field
  use fflaws.Laws
  (* a[k] + (y - b^(k+1)) * (a[k+1] + (y - b^(k+2)) * ( .. * a[i])) *)
  let rec ghost function nf (a : seq ff) (b : ff) (k i : int) (y : ff) : ff variant { i - k }
  = if k >= i then pure { a[i] } else fadd (pure { a[k] }) (fmul (fsub y (fpow b (k + 1))) (nf a b (k + 1) i y))
  (* divided differences of the value f at b^(i+1) *)
  let rec ghost function ndiff (a : seq ff) (b : ff) (k : int) (x f : ff) : ff variant { k }
  = if k <= 0 then f else fdiv (fsub (ndiff a b (k - 1) x f) (pure { a[k - 1] })) (fsub x (fpow b k))
  let rec ghost nf_eq (a c : seq ff) (b : ff) (k i : int) (y : ff)
    requires { 0 <= k <= i } requires { forall j. 0 <= j <= i -> a[j] = c[j] } ensures { nf a b k i y = nf c b k i y } variant { i - k }
  = if k < i then nf_eq a c b (k + 1) i y
  let rec ghost ndiff_eq (a c : seq ff) (b : ff) (k : int) (x f : ff)
    requires { 0 <= k } requires { forall j. 0 <= j < k -> a[j] = c[j] } ensures { ndiff a b k x f = ndiff c b k x f } variant { k }
  = if k > 0 then ndiff_eq a c b (k - 1) x f
  let rec ghost nf_diff (a : seq ff) (b : ff) (k i : int) (x f : ff)
    requires { 0 <= k <= i } requires { forall j. 0 <= j < i -> fpow b (j + 1) <> x } requires { a[i] = ndiff a b i x f }
    ensures { nf a b k i x = ndiff a b k x f } variant { i - k }
  = if k < i then begin
      nf_diff a b (k + 1) i x f;
      let ghost r = ndiff a b k x f in let ghost v = pure { a[k] } in let ghost d = pure { fsub x (fpow b (k + 1)) } in
      law_sub_ne x (fpow b (k + 1));
      assert { ndiff a b (k + 1) x f = fdiv (fsub r v) d };
      law_newton_back v r d
    end
  let rec ghost nf_node (a : seq ff) (b : ff) (k j i : int)
    requires { 0 <= k <= j <= i } ensures { nf a b k i (fpow b (j + 1)) = nf a b k j (fpow b (j + 1)) } variant { j - k }
  = if k < j then nf_node a b (k + 1) j i
end
module Uni
  use int.Int
  use seq.Seq
  use ffield.Field
  use fflaws.Laws
  use cxxmap.FMap
  use polyff.PolyFF
  use Thiele
  let lemma msum_const (k : mono) (v : ff) (x : seq ff)
    requires { length k = 1 } requires { k[0] = 0 } ensures { msum (fadd_ k v (fempty : fmap mono ff)) x 0 1 = v }
  = msum_new k v (pure { fempty : fmap mono ff }) x 0 1; msum_fempty x 0 1; assert { mval x k 0 1 = fone }
  let lemma upto_const (k : mono) (v : ff) (l : int)
    requires { l <= length k } ensures { upto (fadd_ k v (fempty : fmap mono ff)) l } = ()
  (* what one more point does to the fraction *)
  let ghost added (a t b u : seq ff) (f y : ff)
    requires { length a = length t } requires { forall k. 0 <= k < length t -> t[k] <> y } requires { u = snoc t y }
    requires { b = a \/ (length b = length a + 1 /\ (forall k. 0 <= k < length a -> b[k] = a[k])) }
    ensures { length b = length a + 1 -> b[length a] = chain b u (length a) y f -> cf b u 0 (length a) y = f }
    ensures { length b = length a + 1 -> b[length a] = chain a t (length a) y f -> cf b u 0 (length a) y = f }
    ensures { length b = length a + 1 -> b[length a] = chain a u (length a) y f -> cf b u 0 (length a) y = f }
    ensures { length a > 0 -> cf a u 0 (length a - 1) y = cf a t 0 (length a - 1) y }
    ensures { length b = length a + 1 -> forall j. 0 <= j < length a -> cf b u 0 (length a) t[j] = cf a t 0 (length a - 1) t[j] }
  = let ghost n = length a in
    chain_eq a t b u n y f; chain_eq a t a u n y f;
    if n > 0 then cf_eq a t a u 0 (n - 1) y;
    if length b = n + 1 && pure { b[n] = chain b u n y f } then cf_chain b u 0 n y f;
    if length b = n + 1 then begin
      let lemma h (j : int) requires { 0 <= j < n } ensures { cf b u 0 n t[j] = cf a t 0 (n - 1) t[j] }
      = assert { u[j] = t[j] }; cf_node b u 0 j n; cf_node b u 0 j (n - 1); cf_eq a t b u 0 (n - 1) (pure { t[j] }) in ()
    end
end
module NewtonAll
  use int.Int
  use seq.Seq
  use ffield.Field
  use fflaws.Laws
  use Newton
  let ghost newton_all (a : seq ff) (b : ff) (i : int) (f : ff)
    requires { 0 <= i <= length a } requires { forall k. 1 <= k <= i -> fpow b k <> fpow b (i + 1) }
    ensures { forall c. length c = i + 1 -> (forall k. 0 <= k < i -> c[k] = a[k]) -> c[i] = ndiff a b i (fpow b (i + 1)) f ->
              nf c b 0 i (fpow b (i + 1)) = f /\ forall j. 0 <= j < i -> nf c b 0 i (fpow b (j + 1)) = nf a b 0 (i - 1) (fpow b (j + 1)) }
  = let lemma h (c : seq ff) requires { length c = i + 1 } requires { forall k. 0 <= k < i -> c[k] = a[k] } requires { c[i] = ndiff a b i (fpow b (i + 1)) f }
      ensures { nf c b 0 i (fpow b (i + 1)) = f } ensures { forall j. 0 <= j < i -> nf c b 0 i (fpow b (j + 1)) = nf a b 0 (i - 1) (fpow b (j + 1)) }
    = ndiff_eq a c b i (fpow b (i + 1)) f; nf_diff c b 0 i (fpow b (i + 1)) f;
      let lemma g (j : int) requires { 0 <= j < i } ensures { nf c b 0 i (fpow b (j + 1)) = nf a b 0 (i - 1) (fpow b (j + 1)) }
      = nf_node c b 0 j i; nf_node a b 0 j (i - 1); nf_eq a c b 0 j (fpow b (j + 1)) in () in ()
end
