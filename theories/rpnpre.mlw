(* Sequences: the last elements. *)
module RpnSeq
  use int.Int
  use seq.Seq
  use cxx.Pair
  use ffield.Field
  use rpn.Rpn
  let lemma op2_two (s : seq ff) (u y f : ff) ensures { op2 f (snoc (snoc s u) y) = snoc s f }
  = let ghost a = pure { snoc (snoc s u) y } in let ghost b = pure { a[.. length a - 1] } in
    assert { length b = length s + 1 /\ forall i. 0 <= i < length b -> b[i] = a[i] };
    assert { op2 f a = b[length s <- f] };
    assert { op2 f a == snoc s f }
  let lemma last_one (sp : seq 'a) requires { length sp >= 1 } ensures { sp = snoc sp[.. length sp - 1] sp[length sp - 1] }
  = let ghost c = pure { sp[.. length sp - 1] } in assert { length c = length sp - 1 /\ forall i. 0 <= i < length c -> c[i] = sp[i] }; assert { sp == snoc c sp[length sp - 1] }
  let lemma last_two (sp : seq 'a) requires { length sp >= 2 } ensures { sp = snoc (snoc sp[.. length sp - 2] sp[length sp - 2]) sp[length sp - 1] }
     ensures { sp[.. length sp - 1] = snoc sp[.. length sp - 2] sp[length sp - 2] }
  = let ghost b = pure { sp[.. length sp - 2] } in let ghost c = pure { sp[.. length sp - 1] } in
    assert { length b = length sp - 2 /\ forall i. 0 <= i < length b -> b[i] = sp[i] };
    assert { length c = length sp - 1 /\ forall i. 0 <= i < length c -> c[i] = sp[i] };
    assert { c == snoc b sp[length sp - 2] };
    assert { sp == snoc c sp[length sp - 1] }
  let ghost cat_tail (t : seq int) requires { length t >= 1 } ensures { singleton t[0] ++ t[1 ..] = t }
  = let ghost u = pure { t[1 ..] } in
    assert { length u = length t - 1 /\ forall k. 0 <= k < length u -> u[k] = t[k + 1] };
    let ghost v = pure { singleton t[0] ++ u } in
    assert { length v = length t }; assert { v[0] = t[0] }; assert { forall k. 1 <= k < length t -> v[k] = u[k - 1] };
    assert { v == t }
end
(* The symbolic tokens which precompute builds, step by step, and their value in the current field. *)
module RpnPre
  use int.Int
  use seq.Seq
  use cxx.Pair
  use ffield.Field
  use fflaws.Laws
  use cxxstr.Str
  use cxxmap.FMap
  use rpn.Rpn
  use rpns.RpnS
  use rpnpc.RpnPC
  use RpnSeq
  predicate pwf (a : seq tok) (n : int) = forall k. 0 <= k < length a -> if binop a[k].first then depth a k >= 2 else okleaf a[k] n
  let ghost pwf_snoc (a : seq tok) (t : tok) (n : int) requires { pwf a n } requires { if binop t.first then depth a (length a) >= 2 else okleaf t n } ensures { pwf (snoc a t) n }
  = let ghost w = pure { snoc a t } in assert { forall k. 0 <= k <= length a -> depth w k = depth a k by (forall i. 0 <= i < k -> w[i] = a[i]) }
  let ghost pwf_pre (a : seq tok) (m n : int) requires { pwf a n } requires { 0 <= m <= length a } ensures { pwf a[.. m] n }
  = let ghost w = pure { a[.. m] } in assert { forall k. 0 <= k <= m -> depth w k = depth a k by (forall i. 0 <= i < k -> w[i] = a[i]) }
  let ghost fold_num (a : seq tok) (x y : tok) (vs : seq ff)
    requires { x.first = 11 } requires { y.first = 11 }
    ensures { forall d. d.first = 3 -> step d vs (run (snoc (snoc a x) y) (length a + 2) vs empty) = run (snoc a { first = 11; second = fdiv x.second y.second }) (length a + 1) vs empty }
    ensures { depth (snoc (snoc a x) y) (length a + 2) = depth a (length a) + 2 }
    ensures { forall q. depth (snoc a { first = 11; second = q }) (length a + 1) = depth a (length a) + 1 }
  = let ghost s = run a (length a) vs empty in
    run_snoc a x vs empty; run_snoc (pure { snoc a x }) y vs empty;
    depth_snoc a x; depth_snoc (pure { snoc a x }) y;
    let ghost z = pure { { first = 11; second = fdiv x.second y.second } } in
    run_snoc a z vs empty;
    assert { run (snoc (snoc a x) y) (length a + 2) vs empty = snoc (snoc s x.second) y.second };
    op2_two s (pure { x.second }) (pure { y.second }) (pure { fdiv x.second y.second })
  let ghost fold_var (a : seq tok) (x y : tok) (vs : seq ff)
    requires { not binop x.first } requires { y.first = 11 }
    ensures { forall d m. d.first = 3 -> m.first = 2 -> step d vs (run (snoc (snoc a x) y) (length a + 2) vs empty) = run (snoc (snoc (snoc a x) { first = 11; second = fdiv fone y.second }) m) (length a + 3) vs empty }
    ensures { depth (snoc (snoc a x) y) (length a + 2) = depth a (length a) + 2 }
    ensures { forall q. depth (snoc (snoc a x) { first = 11; second = q }) (length a + 2) = depth a (length a) + 2 }
    ensures { forall q m. binop m.first -> depth (snoc (snoc (snoc a x) { first = 11; second = q }) m) (length a + 3) = depth a (length a) + 1 }
  = let ghost s = run a (length a) vs empty in
    run_snoc a x vs empty; run_snoc (pure { snoc a x }) y vs empty;
    depth_snoc a x; depth_snoc (pure { snoc a x }) y;
    let ghost i = pure { { first = 11; second = fdiv fone y.second } } in
    run_snoc (pure { snoc a x }) i vs empty;
    let ghost u = pure { leaf x vs } in
    assert { run (snoc (snoc a x) y) (length a + 2) vs empty = snoc (snoc s u) y.second };
    assert { run (snoc (snoc a x) i) (length a + 2) vs empty = snoc (snoc s u) i.second };
    assert { forall m. run (snoc (snoc (snoc a x) i) m) (length a + 3) vs empty = step m vs (snoc (snoc s u) i.second) };
    assert { fmul u i.second = fdiv u y.second };
    op2_two s u (pure { y.second }) (pure { fdiv u y.second }); op2_two s u (pure { i.second }) (pure { fmul u i.second })
  type stok = { sk : int; si : int; sr : seq sstr }
  function sop_ (k : int) : stok = { sk = k; si = 0; sr = empty }
  function snum (r : seq sstr) : stok = { sk = 11; si = 0; sr = r }
  function sleaf (t : sstr) (vm : fmap sstr int) : stok =
    if isvar t vm then { sk = (if t[0] = 45 then 10 else 9); si = fval vm (body t); sr = empty } else snum (singleton (norm t))
  function pdiv (sp : seq stok) : seq stok =
    let n = length sp in
    if sp[n - 1].sk = 11 && sp[n - 2].sk = 11 then snoc sp[.. n - 2] (snum (quot sp[n - 2].sr sp[n - 1].sr))
    else if sp[n - 1].sk = 11 && (sp[n - 2].sk = 9 || sp[n - 2].sk = 10) then snoc (snoc sp[.. n - 1] (snum (quot (singleton one) sp[n - 1].sr))) (sop_ 2)
    else snoc sp (sop_ 3)
  function pstep (sp : seq stok) (t : sstr) (vm : fmap sstr int) : seq stok =
    if sop t then if t[0] = 47 then pdiv sp else snoc sp (sop_ (opk t[0])) else snoc sp (sleaf t vm)
  let rec ghost function pc (ts : seq sstr) (q : int) (vm : fmap sstr int) : seq stok variant { q }
  = if q <= 0 then pure { empty : seq stok } else let r = pc ts (q - 1) vm in pure { pstep r ts[q - 1] vm }
  function inst (s : stok) (vm : fmap sstr int) : tok =
    if s.sk = 11 then { first = 11; second = cval s.sr vm } else if s.sk = 9 || s.sk = 10 then { first = s.sk; second = fofint s.si } else { first = s.sk; second = fzero }
  let ghost function insts (sp : seq stok) (vm : fmap sstr int) : seq tok ensures { length result = length sp } ensures { forall i. 0 <= i < length sp -> result[i] = inst sp[i] vm }
  = pure { create (length sp) (fun i -> inst sp[i] vm) }
  predicate stok_ok (s : stok) (vm : fmap sstr int) = 0 <= s.sk <= 7 \/ ((s.sk = 9 \/ s.sk = 10) /\ 0 <= s.si < fmodulus /\ s.si <= 2147483647) \/ (s.sk = 11 /\ crpn s.sr vm)
  predicate sp_ok (sp : seq stok) (vm : fmap sstr int) = forall k. 0 <= k < length sp -> stok_ok sp[k] vm
  let lemma insts_snoc (sp : seq stok) (s : stok) (vm : fmap sstr int) ensures { insts (snoc sp s) vm = snoc (insts sp vm) (inst s vm) } = assert { insts (snoc sp s) vm == snoc (insts sp vm) (inst s vm) }
  let lemma insts_pre (sp : seq stok) (m : int) (vm : fmap sstr int) requires { 0 <= m <= length sp } ensures { insts sp[.. m] vm = (insts sp vm)[.. m] } = assert { forall i. 0 <= i < m -> sp[.. m][i] = sp[i] /\ (insts sp vm)[.. m][i] = (insts sp vm)[i] }; assert { insts sp[.. m] vm == (insts sp vm)[.. m] }
  predicate good (sp : seq stok) (ts : seq sstr) (q n : int) (vm : fmap sstr int) (vs : seq ff) =
    length sp <= q /\ sp_ok sp vm /\ (let a = insts sp vm in run a (length a) vs empty = run (trs ts vm) q vs empty /\ depth a (length a) = depth (trs ts vm) q /\ pwf a n)
  let ghost split_good (sp : seq stok) (ts : seq sstr) (q n : int) (vm : fmap sstr int) (vs : seq ff)
    requires { length sp <= q } requires { sp_ok sp vm }
    requires { let a = insts sp vm in run a (length a) vs empty = run (trs ts vm) q vs empty }
    requires { let a = insts sp vm in depth a (length a) = depth (trs ts vm) q }
    requires { pwf (insts sp vm) n }
    ensures { good sp ts q n vm vs } = ()
  let lemma sp_ok_snoc (sp : seq stok) (s : stok) (vm : fmap sstr int) requires { sp_ok sp vm } requires { stok_ok s vm } ensures { sp_ok (snoc sp s) vm } = ()
  let lemma sp_ok_pre (sp : seq stok) (m : int) (vm : fmap sstr int) requires { sp_ok sp vm } requires { 0 <= m <= length sp } ensures { sp_ok sp[.. m] vm } = assert { forall i. 0 <= i < m -> sp[.. m][i] = sp[i] }
  let rec ghost pc_run (ts : seq sstr) (q n : int) (vm : fmap sstr int) (vs : seq ff)
    requires { swf ts vm n } requires { vm_ok vm } requires { 0 <= q <= length ts }
    ensures { let sp = pc ts q vm in let a = insts sp vm in
              length sp <= q /\ run a (length a) vs empty = run (trs ts vm) q vs empty /\ depth a (length a) = depth (trs ts vm) q /\ pwf a n }
    ensures { sp_ok (pc ts q vm) vm }
    variant { q }
  = if q > 0 then begin
      pc_run ts (q - 1) n vm vs;
      let ghost sp = pc ts (q - 1) vm in let ghost a = insts sp vm in let ghost t = pure { ts[q - 1] } in
      let ghost tt = trs ts vm in
      let ghost m = length sp in
      assert { tt[q - 1] = tr t vm };
      assert { run tt q vs empty = step (tr t vm) vs (run tt (q - 1) vs empty) };
      tok_facts t vm (pure { create n (fun _ -> fzero) });
      if pure { sop t } then begin
        depth_le a m;
        assert { m >= 2 };
        last_two sp; last_two a;
        let ghost b = pure { a[.. m - 2] } in let ghost x = pure { a[m - 2] } in let ghost y = pure { a[m - 1] } in
        assert { x = inst sp[m - 2] vm /\ y = inst sp[m - 1] vm };
        if pure { t[0] = 47 } then begin
          if pure { sp[m - 1].sk = 11 /\ sp[m - 2].sk = 11 } then begin
            quot_val (pure { sp[m - 2].sr }) (pure { sp[m - 1].sr }) vm;
            fold_num b x y vs; pwf_pre a (m - 2) n;
            let ghost z = pure { snum (quot sp[m - 2].sr sp[m - 1].sr) } in
            insts_pre sp (m - 2) vm; insts_snoc (pure { sp[.. m - 2] }) z vm;
            pwf_snoc b (pure { inst z vm }) n;
            assert { inst z vm = { first = 11; second = fdiv x.second y.second } };
            assert { pc ts q vm = snoc sp[.. m - 2] z };
            split_good (pure { snoc sp[.. m - 2] z }) ts q n vm vs
          end else if pure { sp[m - 1].sk = 11 /\ (sp[m - 2].sk = 9 \/ sp[m - 2].sk = 10) } then begin
            one_val vm; quot_val (pure { singleton one }) (pure { sp[m - 1].sr }) vm;
            fold_var b x y vs; pwf_pre a (m - 1) n;
            let ghost z = pure { snum (quot (singleton one) sp[m - 1].sr) } in
            assert { a[.. m - 1] = snoc b x };
            insts_pre sp (m - 1) vm; insts_snoc (pure { sp[.. m - 1] }) z vm; insts_snoc (pure { snoc sp[.. m - 1] z }) (pure { sop_ 2 }) vm;
            assert { inst z vm = { first = 11; second = fdiv fone y.second } };
            let ghost bx = pure { snoc b x } in
            pwf_snoc bx (pure { inst z vm }) n;
            assert { inst (sop_ 2) vm = { first = 2; second = fzero } };
            pwf_snoc (pure { snoc bx (inst z vm) }) (pure { inst (sop_ 2) vm }) n;
            assert { pc ts q vm = snoc (snoc sp[.. m - 1] z) (sop_ 2) };
            split_good (pure { snoc (snoc sp[.. m - 1] z) (sop_ 2) }) ts q n vm vs
          end else begin
            insts_snoc sp (pure { sop_ 3 }) vm; run_snoc a (pure { inst (sop_ 3) vm }) vs empty; depth_snoc a (pure { inst (sop_ 3) vm }); pwf_snoc a (pure { inst (sop_ 3) vm }) n;
            assert { pc ts q vm = snoc sp (sop_ 3) };
            split_good (pure { snoc sp (sop_ 3) }) ts q n vm vs
          end
        end else begin
          let ghost z = pure { sop_ (opk t[0]) } in
          insts_snoc sp z vm; run_snoc a (pure { inst z vm }) vs empty; depth_snoc a (pure { inst z vm }); pwf_snoc a (pure { inst z vm }) n;
          assert { pc ts q vm = snoc sp z };
          split_good (pure { snoc sp z }) ts q n vm vs
        end
      end else begin
        let ghost z = pure { sleaf t vm } in
        if pure { not isvar t vm } then num_val t vm;
        assert { inst z vm = tr t vm };
        insts_snoc sp z vm; run_snoc a (pure { inst z vm }) vs empty; depth_snoc a (pure { inst z vm }); pwf_snoc a (pure { inst z vm }) n;
        assert { pc ts q vm = snoc sp z };
        split_good (pure { snoc sp z }) ts q n vm vs
      end
    end else begin assert { q = 0 /\ pc ts 0 vm = empty /\ length (insts (pc ts 0 vm) vm) = 0 }; split_good (pure { (empty : seq stok) }) ts 0 n vm vs end
  let ghost pc_value (ts : seq sstr) (n : int) (vm : fmap sstr int) (vs : seq ff)
    requires { swf ts vm n } requires { vm_ok vm }
    ensures { let a = insts (pc ts (length ts) vm) vm in wf a n /\ value a vs = value (trs ts vm) vs }
  = pc_run ts (length ts) n vm vs
  (* where the numbers are and how they are computed *)
  let rec ghost function parts (sp : seq stok) (k : int) : seq (pair int (seq sstr)) variant { k }
  = if k <= 0 then pure { empty : seq (pair int (seq sstr)) } else if pure { sp[k - 1].sk = 11 } then let r = parts sp (k - 1) in pure { snoc r { first = k - 1; second = sp[k - 1].sr } } else parts sp (k - 1)
  let rec lemma parts_eq (a b : seq stok) (k : int) requires { 0 <= k <= length a } requires { k <= length b } requires { forall i. 0 <= i < k -> a[i] = b[i] } ensures { parts a k = parts b k } variant { k }
  = if k > 0 then parts_eq a b (k - 1)
  let rec lemma parts_sound (sp : seq stok) (k m : int) requires { 0 <= m < length (parts sp k) } requires { k <= length sp } ensures { 0 <= (parts sp k)[m].first < k } ensures { sp[(parts sp k)[m].first].sk = 11 } ensures { (parts sp k)[m].second = sp[(parts sp k)[m].first].sr } variant { k }
  = if k > 0 then if pure { sp[k - 1].sk = 11 } then begin assert { parts sp k = snoc (parts sp (k - 1)) { first = k - 1; second = sp[k - 1].sr } }; if m < length (parts sp (k - 1)) then begin parts_sound sp (k - 1) m; assert { (parts sp k)[m] = (parts sp (k - 1))[m] } end else assert { (parts sp k)[m] = { first = k - 1; second = sp[k - 1].sr } } end else parts_sound sp (k - 1) m
  let rec ghost parts_cover (sp : seq stok) (k i : int) : (m : int) requires { 0 <= i < k <= length sp } requires { sp[i].sk = 11 } ensures { 0 <= m < length (parts sp k) } ensures { (parts sp k)[m].first = i } variant { k }
  = assert { if sp[k - 1].sk = 11 then parts sp k = snoc (parts sp (k - 1)) { first = k - 1; second = sp[k - 1].sr } else parts sp k = parts sp (k - 1) };
    if k - 1 = i then begin let m = length (parts sp (k - 1)) in assert { length (parts sp k) = m + 1 /\ (parts sp k)[m] = { first = k - 1; second = sp[k - 1].sr } }; assert { 0 <= m < length (parts sp k) /\ (parts sp k)[m].first = i }; m end else begin let m = parts_cover sp (k - 1) i in assert { length (parts sp k) >= length (parts sp (k - 1)) /\ (parts sp k)[m] = (parts sp (k - 1))[m] }; assert { 0 <= m < length (parts sp k) /\ (parts sp k)[m].first = i }; m end
  let ghost parts_snoc (sp : seq stok) (s : stok) ensures { parts (snoc sp s) (length sp + 1) = if s.sk = 11 then snoc (parts sp (length sp)) { first = length sp; second = s.sr } else parts sp (length sp) }
  = parts_eq sp (pure { snoc sp s }) (length sp)
  let ghost parts_pre (sp : seq stok) (m : int) requires { 0 <= m <= length sp } ensures { parts sp[.. m] m = parts sp m }
  = assert { forall i. 0 <= i < m -> sp[.. m][i] = sp[i] }; parts_eq (pure { sp[.. m] }) sp m
  (* one more token: what is on the stack of symbolic tokens *)
  let ghost pc_step (ts : seq sstr) (q n : int) (vm : fmap sstr int) : unit
    requires { swf ts vm n } requires { vm_ok vm } requires { 0 <= q < length ts }
    ensures { let sp = pc ts q vm in let t = ts[q] in length sp <= q /\ tokok t vm /\ (sop t -> length sp >= 2) }
    ensures { pc ts (q + 1) vm = pstep (pc ts q vm) ts[q] vm }
    ensures { let sp = pc ts q vm in let t = ts[q] in let m = length sp in sop t -> t[0] = 47 -> sp[m - 1].sk = 11 -> sp[m - 2].sk = 11 ->
              inst (snum (quot sp[m - 2].sr sp[m - 1].sr)) vm = { first = 11; second = fdiv (inst sp[m - 2] vm).second (inst sp[m - 1] vm).second } }
    ensures { let sp = pc ts q vm in let t = ts[q] in let m = length sp in sop t -> t[0] = 47 -> sp[m - 1].sk = 11 -> sp[m - 2].sk = 11 ->
              parts sp m = snoc (snoc (parts sp (m - 2)) { first = m - 2; second = sp[m - 2].sr }) { first = m - 1; second = sp[m - 1].sr }
              /\ parts (pc ts (q + 1) vm) (m - 1) = snoc (parts sp (m - 2)) { first = m - 2; second = quot sp[m - 2].sr sp[m - 1].sr } }
    ensures { let sp = pc ts q vm in let t = ts[q] in let m = length sp in sop t -> t[0] = 47 -> sp[m - 1].sk = 11 -> (sp[m - 2].sk = 9 \/ sp[m - 2].sk = 10) ->
              inst (snum (quot (singleton one) sp[m - 1].sr)) vm = { first = 11; second = fdiv fone (inst sp[m - 1] vm).second }
              /\ parts sp m = snoc (parts sp (m - 1)) { first = m - 1; second = sp[m - 1].sr }
              /\ parts (pc ts (q + 1) vm) (m + 1) = snoc (parts sp (m - 1)) { first = m - 1; second = quot (singleton one) sp[m - 1].sr } }
    ensures { let sp = pc ts q vm in let t = ts[q] in let m = length sp in sop t -> (t[0] <> 47 \/ sp[m - 1].sk <> 11 \/ (sp[m - 2].sk <> 11 /\ sp[m - 2].sk <> 9 /\ sp[m - 2].sk <> 10)) ->
              pc ts (q + 1) vm = snoc sp (sop_ (opk t[0])) /\ parts (pc ts (q + 1) vm) (m + 1) = parts sp m }
    ensures { let sp = pc ts q vm in let t = ts[q] in let m = length sp in not sop t -> inst (sleaf t vm) vm = tr t vm }
    ensures { let sp = pc ts q vm in let t = ts[q] in let m = length sp in not sop t ->
              parts (pc ts (q + 1) vm) (m + 1) = if isvar t vm then parts sp m else snoc (parts sp m) { first = m; second = singleton (norm t) } }
    ensures { let sp = pc ts q vm in forall k. 0 <= k < length sp -> (inst sp[k] vm).first = sp[k].sk }
    ensures { let t = ts[q] in not sop t -> not isvar t vm -> digits (body t) /\ (length t <= 18 -> 0 <= dec (body t) < 1000000000000000000) }
    ensures { let t = ts[q] in fofint (- dec (body t)) = fneg (fofint (dec (body t))) }
    ensures { let t = ts[q] in t[0] = 45 -> chr1 45 ++ t[1 ..] = t }
    ensures { let t = ts[q] in digits (body t) -> not fmem (body t) vm }
    ensures { fofint 0 = fzero /\ fofint 1 = fone }
  = let ghost sp = pc ts q vm in let ghost t = pure { ts[q] } in let ghost m = length sp in let ghost a = insts sp vm in
    pc_run ts q n vm (pure { zs });
    assert { tokok t vm };
    if pure { t[0] = 45 } then cat_tail t;
    let ghost tt = trs ts vm in
    assert { if binop tt[q].first then depth tt q >= 2 else okleaf tt[q] n };
    assert { tt[q] = tr t vm };
    assert { if binop (tr t vm).first then depth tt q >= 2 else okleaf (tr t vm) n };
    assert { pc ts (q + 1) vm = pstep sp t vm };
    tok_facts t vm (pure { create n (fun _ -> fzero) });
    if pure { sop t } then begin
      depth_le a m;
      assert { m >= 2 };
      if pure { t[0] = 47 } then begin
        if pure { sp[m - 1].sk = 11 /\ sp[m - 2].sk = 11 } then begin
          quot_val (pure { sp[m - 2].sr }) (pure { sp[m - 1].sr }) vm;
          let ghost z = pure { snum (quot sp[m - 2].sr sp[m - 1].sr) } in
          assert { parts sp m = snoc (parts sp (m - 1)) { first = m - 1; second = sp[m - 1].sr } };
          assert { parts sp (m - 1) = snoc (parts sp (m - 2)) { first = m - 2; second = sp[m - 2].sr } };
          parts_pre sp (m - 2); parts_snoc (pure { sp[.. m - 2] }) z;
          assert { length sp[.. m - 2] = m - 2 };
          assert { pc ts (q + 1) vm = snoc sp[.. m - 2] z }
        end else if pure { sp[m - 1].sk = 11 /\ (sp[m - 2].sk = 9 \/ sp[m - 2].sk = 10) } then begin
          one_val vm; quot_val (pure { singleton one }) (pure { sp[m - 1].sr }) vm;
          let ghost z = pure { snum (quot (singleton one) sp[m - 1].sr) } in
          assert { parts sp m = snoc (parts sp (m - 1)) { first = m - 1; second = sp[m - 1].sr } };
          parts_pre sp (m - 1); parts_snoc (pure { sp[.. m - 1] }) z; parts_snoc (pure { snoc sp[.. m - 1] z }) (pure { sop_ 2 });
          assert { length sp[.. m - 1] = m - 1 };
          assert { pc ts (q + 1) vm = snoc (snoc sp[.. m - 1] z) (sop_ 2) }
        end else begin
          parts_snoc sp (pure { sop_ 3 });
          assert { pc ts (q + 1) vm = snoc sp (sop_ (opk t[0])) }
        end
      end else begin
        parts_snoc sp (pure { sop_ (opk t[0]) });
        assert { pc ts (q + 1) vm = snoc sp (sop_ (opk t[0])) }
      end
    end else begin
      if pure { not isvar t vm } then num_val t vm;
      parts_snoc sp (pure { sleaf t vm });
      assert { pc ts (q + 1) vm = snoc sp (sleaf t vm) }
    end
end
