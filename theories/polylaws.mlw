(* Univariate polynomials over the field: statements proved in lean/PolyLaws.lean (F[X] of Mathlib, theorems of the same names). *)
module PolyLaws
  use int.Int
  use seq.Seq
  use ffield.Field
  type pol
  function coefp pol int : ff                 (* coefficient; zero for negative indices *)
  function tp (s : seq ff) : pol              (* the polynomial with these coefficients *)
  function padd pol pol : pol
  function psub pol pol : pol
  function pmul pol pol : pol
  function pscale ff pol : pol
  function csum (a b : pol) (i m : int) : ff  (* sum of a_j b_(i-j) for j < m *)
  predicate degle (a : pol) (n : int) = forall i. n < i -> coefp a i = fzero
  predicate isone (a : pol) (l : int) = forall i. 0 <= i < l -> coefp a i = if i = 0 then fone else fzero
  predicate agree (a b : pol) (l : int) = forall i. 0 <= i < l -> coefp a i = coefp b i
  predicate pdvd (a b : pol)
  predicate comb (a c d : pol)                (* a = u c + v d for some u and v *)
  axiom coef_neg : forall a i. i < 0 -> coefp a i = fzero
  axiom coef_tp : forall s i. coefp (tp s) i = if 0 <= i < length s then s[i] else fzero
  axiom coef_add : forall a b i. coefp (padd a b) i = fadd (coefp a i) (coefp b i)
  axiom coef_sub : forall a b i. coefp (psub a b) i = fsub (coefp a i) (coefp b i)
  axiom coef_scale : forall a c i. coefp (pscale c a) i = fmul (coefp a i) c
  axiom coef_mul : forall a b i. 0 <= i -> coefp (pmul a b) i = csum a b i (i + 1)
  axiom csum_zero : forall a b i. csum a b i 0 = fzero
  val ghost csum_step (a b : pol) (i m : int) : unit requires { 0 <= m } ensures { csum a b i (m + 1) = fadd (csum a b i m) (fmul (coefp a m) (coefp b (i - m))) }
  val ghost pol_ext (a b : pol) : unit requires { forall i. 0 <= i -> coefp a i = coefp b i } ensures { a = b }
  val ghost deg_mul (a b : pol) (n m : int) : unit requires { 0 <= n } requires { 0 <= m } requires { degle a n } requires { degle b m } ensures { degle (pmul a b) (n + m) }
  val ghost newton (f g h : pol) (l : int) : unit requires { 1 <= l } requires { isone (pmul f g) l }
    requires { agree h (psub (pscale (fofint 2) g) (pmul (pmul g g) f)) (2 * l) } ensures { isone (pmul f h) (2 * l) }
  val ghost division (a b f g r s q : pol) (n m : int) : unit requires { 0 <= n } requires { 0 <= m } requires { degle a (n + m) } requires { degle b n }
    requires { forall i. 0 <= i -> coefp f i = coefp b (n - i) } requires { forall i. 0 <= i -> coefp r i = coefp a (n + m - i) }
    requires { isone (pmul f g) (m + 1) } requires { agree s (pmul r g) (m + 1) } requires { forall i. 0 <= i -> coefp q i = coefp s (m - i) }
    ensures { degle (psub a (pmul b q)) (n - 1) }
  val ghost scale_out (b q : pol) (c : ff) : unit ensures { pmul (pscale c b) q = pmul b (pscale c q) }
  axiom mul_comm_ : forall a b. pmul a b = pmul b a
  axiom add_sub_ : forall a x. padd x (psub a x) = a
  axiom mul_one_ : forall a b. isone b 1 -> degle b 0 -> pmul a b = a
  axiom mul_zero_ : forall a b i. (forall j. 0 <= j -> coefp a j = fzero) -> coefp (pmul a b) i = fzero
  axiom dvd_self : forall a. pdvd a a
  axiom dvd_zero_ : forall a b. (forall i. 0 <= i -> coefp b i = fzero) -> pdvd a b
  val ghost dvd_comb (p a b q r : pol) : unit requires { a = padd (pmul q b) r } requires { pdvd p b } requires { pdvd p r } ensures { pdvd p a }
  axiom comb_left : forall c d. comb c c d
  axiom comb_right : forall c d. comb d c d
  val ghost comb_rem (a b q r c d : pol) : unit requires { a = padd (pmul q b) r } requires { comb a c d } requires { comb b c d } ensures { comb r c d }

  (* degree as get_deg computes it: the highest index of a nonzero coefficient, 0 if there is none *)
  let rec ghost function pdeg (s : seq ff) (n : int) : int variant { n }
  = if n <= 1 then 0 else if feq s[n - 1] fzero then pdeg s (n - 1) else n - 1
  let rec lemma pdeg_range (s : seq ff) (n : int) requires { 1 <= n <= length s } ensures { 0 <= pdeg s n < n } ensures { forall k. pdeg s n < k < n -> s[k] = fzero } ensures { pdeg s n = 0 \/ s[pdeg s n] <> fzero } variant { n }
  = if n > 1 then pdeg_range s (n - 1)
  function dg (s : seq ff) : int = pdeg s (length s)
  predicate nonzero (s : seq ff) = exists i. 0 <= i < length s /\ s[i] <> fzero
  lemma dg_degle : forall s. length s >= 1 -> degle (tp s) (dg s)
  lemma dg_le : forall s n. length s >= 1 -> 0 <= n -> degle (tp s) n -> dg s <= n
  lemma dg_nonzero : forall s. length s >= 1 -> nonzero s -> s[dg s] <> fzero
  let ghost dg_is_ (s : seq ff) (n : int) requires { 0 <= n < length s } requires { s[n] <> fzero } requires { degle (tp s) n } ensures { dg s = n }
  = assert { dg s <= n }; assert { coefp (tp s) n = s[n] }; assert { degle (tp s) (dg s) }
  lemma dg_is : forall s n. 0 <= n < length s -> s[n] <> fzero -> degle (tp s) n -> dg s = n
end
