(* Reverse Polish notation: what a sequence of tokens denotes. *)
module Rpn
  use int.Int
  use seq.Seq
  use cxx.Pair
  use ffield.Field
  (* FFInt::to_neg_int: a negative exponent (property C01) *)
  val function fnegint (a : ff) : int
  axiom fnegint_small : forall a. fto a <= 2147483647 -> fnegint a = - fto a
  type tok = pair int ff
  (* stack: bottom first *)
  function op2 (f : ff) (st : seq ff) : seq ff = st[.. length st - 1][length st - 2 <- f]
  function snd (st : seq ff) : ff = st[length st - 2]
  function top (st : seq ff) : ff = st[length st - 1]
  predicate binop (k : int) = 0 <= k <= 7
  function apply (k : int) (x y : ff) : ff =
    if k = 0 then fadd x y else if k = 1 then fsub x y else if k = 2 then fmul x y else if k = 3 then fdiv x y
    else if k = 4 then fpowff x y else if k = 5 then fpow x (fnegint y) else if k = 6 then fneg (fpowff x y) else fneg (fpow x (fnegint y))
  function leaf (t : tok) (vs : seq ff) : ff = if t.first = 9 then vs[fto t.second] else if t.first = 10 then fneg vs[fto t.second] else t.second
  let ghost function step (t : tok) (vs : seq ff) (st : seq ff) : seq ff
  = pure { if binop t.first then op2 (apply t.first (snd st) (top st)) st else snoc st (leaf t vs) }
  (* the stack after the first k tokens *)
  let rec ghost function run (ts : seq tok) (k : int) (vs st : seq ff) : seq ff variant { k }
  = if k <= 0 then st else step (pure { ts[k - 1] }) vs (run ts (k - 1) vs st)
  let rec ghost function depth (ts : seq tok) (k : int) : int variant { k }
  = if k <= 0 then 0 else if pure { binop ts[k - 1].first } then depth ts (k - 1) - 1 else depth ts (k - 1) + 1
  predicate okleaf (t : tok) (n : int) = t.first = 11 \/ ((t.first = 9 \/ t.first = 10) /\ fto t.second < n)
  (* well formed: operators find two operands, variables exist, one value remains *)
  predicate wf (ts : seq tok) (n : int) =
    (forall k. 0 <= k < length ts -> if binop ts[k].first then depth ts k >= 2 else okleaf ts[k] n) /\ depth ts (length ts) = 1
  let rec lemma run_depth (ts : seq tok) (k n : int) (vs : seq ff) requires { wf ts n } requires { 0 <= k <= length ts } ensures { length (run ts k vs empty) = depth ts k } ensures { k >= 1 -> depth ts k >= 1 } variant { k }
  = if k > 0 then run_depth ts (k - 1) n vs
  function value (ts : seq tok) (vs : seq ff) : ff = top (run ts (length ts) vs empty)
end
