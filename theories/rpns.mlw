(* Reverse Polish notation as text: tokens are strings. *)
module RpnS
  use int.Int
  use seq.Seq
  use cxx.Pair
  use ffield.Field
  use fflaws.Laws
  use cxxstr.Str
  use cxxmap.FMap
  use rpn.Rpn
  val constant fmodulus : int
  axiom fto_ofint : forall n. 0 <= n < fmodulus -> fto (fofint n) = n
  predicate opc (c : int) = c = 43 \/ c = 45 \/ c = 42 \/ c = 47 \/ c = 94 \/ c = 33 \/ c = 126 \/ c = 59
  predicate sop (t : sstr) = length t = 1 /\ opc t[0]
  function opk (c : int) : int = if c = 43 then 0 else if c = 45 then 1 else if c = 42 then 2 else if c = 47 then 3 else if c = 94 then 4 else if c = 126 then 5 else if c = 33 then 6 else 7
  predicate sgn (t : sstr) = length t >= 1 /\ (t[0] = 43 \/ t[0] = 45)
  function body (t : sstr) : sstr = if sgn t then t[1 ..] else t
  predicate isvar (t : sstr) (vm : fmap sstr int) = length t <= 18 /\ fmem (body t) vm
  function num (t : sstr) : ff = if t[0] = 45 then fneg (fofint (dec (body t))) else fofint (dec (body t))
  function tr (t : sstr) (vm : fmap sstr int) : tok =
    if sop t then { first = opk t[0]; second = fzero }
    else if isvar t vm then { first = (if t[0] = 45 then 10 else 9); second = fofint (fval vm (body t)) }
    else { first = 11; second = num t }
  (* a leaf is a variable of at most 18 characters, or a number of any length *)
  predicate tokok (t : sstr) (vm : fmap sstr int) = length t >= 1 /\ (sop t \/ (isvar t vm /\ 0 <= fval vm (body t) < fmodulus /\ fval vm (body t) <= 2147483647) \/ (not isvar t vm /\ digits (body t)))
  let ghost function trs (ts : seq sstr) (vm : fmap sstr int) : seq tok ensures { length result = length ts } ensures { forall i. 0 <= i < length ts -> result[i] = tr ts[i] vm }
  = pure { create (length ts) (fun i -> tr ts[i] vm) }
  predicate swf (ts : seq sstr) (vm : fmap sstr int) (n : int) = (forall i. 0 <= i < length ts -> tokok ts[i] vm) /\ wf (trs ts vm) n
  let lemma short_fits (t : sstr) requires { digits t } requires { length t <= 18 } ensures { 0 <= dec t < 1000000000000000000 }
  = dec_bound t (length t); pow10_mono (length t) 18; pow10_18 ()
  function sval (t : sstr) (vm : fmap sstr int) (vs : seq ff) : ff =
    if isvar t vm then (if t[0] = 45 then fneg vs[fval vm (body t)] else vs[fval vm (body t)]) else num t
  let ghost tok_facts (t : sstr) (vm : fmap sstr int) (vs : seq ff)
    requires { tokok t vm } requires { binop (tr t vm).first \/ okleaf (tr t vm) (length vs) }
    ensures { sop t <-> binop (tr t vm).first } ensures { sop t -> (tr t vm).first = opk t[0] }
    ensures { not sop t -> leaf (tr t vm) vs = sval t vm vs }
    ensures { not sop t -> isvar t vm -> 0 <= fval vm (body t) < length vs /\ fval vm (body t) <= 2147483647 }
    ensures { not sop t -> not isvar t vm -> digits (body t) }
    ensures { not sop t -> not isvar t vm -> length t <= 18 -> 0 <= dec (body t) < 1000000000000000000 }
    ensures { fofint (- dec (body t)) = fneg (fofint (dec (body t))) }
  = law_ofint_neg (pure { dec (body t) }); if pure { digits (body t) /\ length (body t) <= 18 } then short_fits (pure { body t }) else ()
  let rec lemma depth_le (ts : seq tok) (k : int) requires { 0 <= k } ensures { depth ts k <= k } variant { k } = if k > 0 then depth_le ts (k - 1)
end
