(* Precomputed tokens: what precompute builds from the textual notation, independent of the field, and why it denotes the same. *)
module RpnPC
  use int.Int
  use seq.Seq
  use cxx.Pair
  use ffield.Field
  use fflaws.Laws
  use cxxstr.Str
  use cxxmap.FMap
  use rpn.Rpn
  use rpns.RpnS
  predicate vm_ok (vm : fmap sstr int) = forall k. fmem k vm -> not digits k
  (* the stack machine on concatenations *)
  let rec lemma run_eq (a b : seq tok) (k : int) (vs st : seq ff) requires { 0 <= k <= length a } requires { k <= length b } requires { forall i. 0 <= i < k -> a[i] = b[i] } ensures { run a k vs st = run b k vs st } variant { k }
  = if k > 0 then run_eq a b (k - 1) vs st
  let rec lemma depth_eq (a b : seq tok) (k : int) requires { 0 <= k <= length a } requires { k <= length b } requires { forall i. 0 <= i < k -> a[i] = b[i] } ensures { depth a k = depth b k } variant { k }
  = if k > 0 then depth_eq a b (k - 1)
  let lemma run_snoc (a : seq tok) (t : tok) (vs st : seq ff) ensures { run (snoc a t) (length a + 1) vs st = step t vs (run a (length a) vs st) } = run_eq a (pure { snoc a t }) (length a) vs st
  let lemma depth_snoc (a : seq tok) (t : tok) ensures { depth (snoc a t) (length a + 1) = if binop t.first then depth a (length a) - 1 else depth a (length a) + 1 } = depth_eq a (pure { snoc a t }) (length a)
  let rec lemma run_app (a b : seq tok) (k : int) (vs st : seq ff) requires { 0 <= k <= length b } ensures { run (a ++ b) (length a + k) vs st = run b k vs (run a (length a) vs st) } variant { k }
  = if k > 0 then run_app a b (k - 1) vs st else run_eq (pure { a ++ b }) a (length a) vs st
  let rec lemma depth_app (a b : seq tok) (k : int) requires { 0 <= k <= length b } ensures { depth (a ++ b) (length a + k) = depth a (length a) + depth b k } variant { k }
  = if k > 0 then depth_app a b (k - 1) else depth_eq (pure { a ++ b }) a (length a)
  (* a well-formed sequence leaves what is below on the stack alone *)
  let rec lemma run_frame (a : seq tok) (k n : int) (vs st : seq ff) requires { wf a n } requires { 0 <= k <= length a } ensures { run a k vs st = st ++ run a k vs empty } variant { k }
  = if k > 0 then begin
      run_frame a (k - 1) n vs st; run_depth a (k - 1) n vs;
      let ghost s = run a (k - 1) vs empty in
      assert { step a[k - 1] vs (st ++ s) == st ++ step a[k - 1] vs s }
    end else assert { run a 0 vs st == st ++ empty }
  let lemma run_wf (a : seq tok) (n : int) (vs st : seq ff) requires { wf a n } ensures { run a (length a) vs st = snoc st (value a vs) }
  = run_frame a (length a) n vs st; run_depth a (length a) n vs; assert { st ++ run a (length a) vs empty == snoc st (value a vs) }
  (* constants: sequences without variables *)
  predicate const (ts : seq tok) = forall i. 0 <= i < length ts -> binop ts[i].first \/ ts[i].first = 11
  let rec lemma run_const (a : seq tok) (k : int) (vs ws st : seq ff) requires { const a } requires { 0 <= k <= length a } ensures { run a k vs st = run a k ws st } variant { k }
  = if k > 0 then run_const a (k - 1) vs ws st
  predicate crpn (r : seq sstr) (vm : fmap sstr int) = swf r vm 0 /\ const (trs r vm)
  function zs : seq ff = singleton fzero
  function cval (r : seq sstr) (vm : fmap sstr int) : ff = value (trs r vm) zs
  let lemma trs_app (a b : seq sstr) (vm : fmap sstr int) ensures { trs (a ++ b) vm = trs a vm ++ trs b vm } = assert { trs (a ++ b) vm == trs a vm ++ trs b vm }
  let lemma trs_one (t : sstr) (vm : fmap sstr int) ensures { trs (singleton t) vm = singleton (tr t vm) } = assert { trs (singleton t) vm == singleton (tr t vm) }
  function slash : sstr = chr1 47
  function one : sstr = chr1 49
  function quot (a b : seq sstr) : seq sstr = snoc (a ++ b) slash
  let lemma trs_snoc (a : seq sstr) (t : sstr) (vm : fmap sstr int) ensures { trs (snoc a t) vm = snoc (trs a vm) (tr t vm) } = assert { trs (snoc a t) vm == snoc (trs a vm) (tr t vm) }
  let ghost quot_tok (ta tb : seq tok) (t : tok) (vs : seq ff) : unit
    requires { wf ta 0 } requires { wf tb 0 } requires { const ta } requires { const tb } requires { t.first = 3 }
    ensures { let w = snoc (ta ++ tb) t in wf w 0 /\ const w /\ value w vs = fdiv (value ta vs) (value tb vs) }
  = let ghost ab = pure { ta ++ tb } in
    let ghost w = pure { snoc ab t } in
    let ghost na = length ta in let ghost nb = length tb in
    let ghost s1 = pure { snoc (empty : seq ff) (value ta vs) } in
    run_wf ta 0 vs (pure { empty : seq ff }); run_wf tb 0 vs s1;
    run_app ta tb nb vs (pure { empty : seq ff });
    assert { run ab (length ab) vs empty = snoc s1 (value tb vs) };
    run_snoc ab t vs (pure { empty : seq ff });
    let ghost s2 = pure { snoc s1 (value tb vs) } in
    assert { length s2 = 2 /\ s2[0] = value ta vs /\ s2[1] = value tb vs };
    assert { run w (length w) vs empty = op2 (fdiv (value ta vs) (value tb vs)) s2 };
    assert { length (op2 (fdiv (value ta vs) (value tb vs)) s2) = 1 /\ (op2 (fdiv (value ta vs) (value tb vs)) s2)[0] = fdiv (value ta vs) (value tb vs) };
    assert { top (run w (length w) vs empty) = fdiv (value ta vs) (value tb vs) };
    depth_app ta tb nb; depth_snoc ab t;
    assert { depth w (length w) = 1 };
    assert { forall k. 0 <= k < na -> w[k] = ta[k] };
    assert { forall k. 0 <= k < na -> depth w k = depth ta k by (forall i. 0 <= i < k -> w[i] = ta[i]) };
    assert { forall k. 0 <= k < nb -> w[na + k] = tb[k] };
    assert { forall k. 0 <= k < nb -> depth w (na + k) = 1 + depth tb k
               by depth ab (na + k) = depth ta na + depth tb k /\ depth w (na + k) = depth ab (na + k) by (forall i. 0 <= i < na + k -> w[i] = ab[i]) };
    assert { depth w (na + nb) = 2 by depth w (na + nb) = depth ab (na + nb) by (forall i. 0 <= i < na + nb -> w[i] = ab[i]) };
    assert { w[na + nb] = t };
    assert { forall h. 0 <= h < nb -> if binop tb[h].first then depth tb h >= 2 else okleaf tb[h] 0 };
    assert { forall h. 0 <= h < nb -> if binop w[na + h].first then depth w (na + h) >= 2 else okleaf w[na + h] 0 by w[na + h] = tb[h] /\ depth w (na + h) = 1 + depth tb h };
    assert { forall k. na <= k < na + nb -> if binop w[k].first then depth w k >= 2 else okleaf w[k] 0
             by let h = k - na in k = na + h /\ (if binop w[na + h].first then depth w (na + h) >= 2 else okleaf w[na + h] 0) };
    assert { forall k. 0 <= k < length w -> if binop w[k].first then depth w k >= 2 else okleaf w[k] 0
             by k < na \/ na <= k < na + nb \/ k = na + nb };
    assert { forall k. na <= k < na + nb -> binop w[k].first \/ w[k].first = 11
             by let h = k - na in 0 <= h < nb /\ w[na + h] = tb[h] };
    assert { const w by forall k. 0 <= k < length w -> binop w[k].first \/ w[k].first = 11 by k < na \/ na <= k < na + nb \/ k = na + nb }
  let quot_val (a b : seq sstr) (vm : fmap sstr int) : unit
    requires { crpn a vm } requires { crpn b vm }
    ensures { crpn (quot a b) vm } ensures { cval (quot a b) vm = fdiv (cval a vm) (cval b vm) }
  = let ghost ta = trs a vm in let ghost tb = trs b vm in
    chr1_spec (pure { slash }) 47;
    trs_app a b vm; trs_snoc (pure { a ++ b }) (pure { slash }) vm;
    let ghost t = tr (pure { slash }) vm in
    assert { t.first = 3 };
    quot_tok ta tb t (pure { zs });
    assert { trs (quot a b) vm = snoc (ta ++ tb) t };
    assert { forall k. 0 <= k < length (quot a b) -> tokok (quot a b)[k] vm
             by if k < length a then (quot a b)[k] = a[k] else if k < length a + length b then (quot a b)[k] = b[k - length a] else (quot a b)[k] = slash };
    assert { swf (quot a b) vm 0 }
  let one_val (vm : fmap sstr int) : unit requires { vm_ok vm } ensures { crpn (singleton one) vm } ensures { cval (singleton one) vm = fone }
  = chr1_spec (pure { one }) 49;
    assert { digits one }; assert { body one = one };
    assert { not isvar one vm }; assert { dec one = 1 by dec_upto one 1 = 10 * dec_upto one 0 + 1 };
    assert { tr one vm = { first = 11; second = fone } };
    trs_one (pure { one }) vm;
    assert { run (trs (singleton one) vm) 1 zs empty == snoc empty fone by run (trs (singleton one) vm) 0 zs empty = empty }
  (* numbers keep their text, without a leading plus if they are long *)
  function norm (t : sstr) : sstr = if length t > 18 /\ t[0] = 43 then t[1 ..] else t
  let num_val (t : sstr) (vm : fmap sstr int) : unit requires { vm_ok vm } requires { tokok t vm } requires { not sop t } requires { not isvar t vm }
    ensures { crpn (singleton (norm t)) vm } ensures { cval (singleton (norm t)) vm = num t }
  = let ghost s = pure { norm t } in
    assert { digits (body t) }; assert { body s = body t by if length t > 18 /\ t[0] = 43 then s = t[1 ..] /\ digits s else s = t };
    assert { not sop s by length s = 1 -> s = t };
    assert { not isvar s vm }; assert { num s = num t };
    assert { tr s vm = { first = 11; second = num t } };
    trs_one s vm; assert { singleton s = singleton (norm t) };
    assert { run (trs (singleton s) vm) 1 zs empty == snoc empty (num t) by run (trs (singleton s) vm) 0 zs empty = empty }
end
