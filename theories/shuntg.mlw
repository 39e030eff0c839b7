(* Expressions, their text, and the reverse Polish notation the shunting yard makes of the text. *)
module SeqX
  use int.Int
  use seq.Seq
  let lemma len0 (s : seq 'a) ensures { length s = 0 <-> s = empty } = assert { length s = 0 -> s == empty }
  let lemma slice_slice (o : seq 'a) (m n : int) requires { 0 <= n <= m <= length o } ensures { o[.. m][.. n] = o[.. n] } = assert { o[.. m][.. n] == o[.. n] }
  let lemma slice_all (o : seq 'a) ensures { o[.. length o] = o } = assert { o[.. length o] == o }
  let lemma slice_one (o : seq 'a) (n : int) requires { 0 <= n < length o } ensures { snoc o[.. n] o[n] = o[.. n + 1] } = assert { snoc o[.. n] o[n] == o[.. n + 1] }
  let lemma snoc_slice (o : seq 'a) (c : 'a) ensures { (snoc o c)[.. length o] = o } = assert { (snoc o c)[.. length o] == o }
  let lemma snoc_app (a b : seq 'a) (c : 'a) ensures { snoc (a ++ b) c = a ++ snoc b c } = assert { snoc (a ++ b) c == a ++ snoc b c }
  let lemma app_app (a b c : seq 'a) ensures { (a ++ b) ++ c = a ++ (b ++ c) } = assert { (a ++ b) ++ c == a ++ (b ++ c) }
  let lemma app_empty (a : seq 'a) ensures { a ++ empty = a } ensures { empty ++ a = a } = assert { a ++ empty == a }; assert { empty ++ a == a }
  let lemma app_singleton (a : seq 'a) (c : 'a) ensures { a ++ singleton c = snoc a c } = assert { a ++ singleton c == snoc a c }
  let lemma snoc_cons (a b : seq 'a) (c : 'a) ensures { snoc a c ++ b = a ++ cons c b } = assert { snoc a c ++ b == a ++ cons c b }
  let lemma cons_tail (t : seq 'a) (c : 'a) ensures { (cons c t)[1 ..] = t } = assert { (cons c t)[1 ..] == t }
  let lemma snoc_set (a : seq 'a) (w v : 'a) ensures { (snoc a w)[length a <- v] = snoc a v } = assert { (snoc a w)[length a <- v] == snoc a v }
  let lemma app_tail (u v : seq 'a) requires { length u >= 1 } ensures { (u ++ v)[1 ..] = u[1 ..] ++ v } = assert { (u ++ v)[1 ..] == u[1 ..] ++ v }
  let lemma single_app (c : 'a) (t : seq 'a) ensures { singleton c ++ t = cons c t } = assert { singleton c ++ t == cons c t }
end
module Occ
  use int.Int
  use seq.Seq
  use SeqX
  predicate occ (s : seq int) (i : int) (t : seq int) = 0 <= i /\ i + length t <= length s /\ forall k. 0 <= k < length t -> s[i + k] = t[k]
  let lemma at_app (s : seq int) (i : int) (a b : seq int) (c : int) requires { occ s i (a ++ cons c b) } ensures { occ s i a } ensures { s[i + length a] = c } ensures { occ s (i + length a + 1) b }
  = assert { length (a ++ cons c b) = length a + 1 + length b }; assert { forall k. 0 <= k < length a -> s[i + k] = (a ++ cons c b)[k] }; assert { s[i + length a] = (a ++ cons c b)[length a] }; assert { forall k. 0 <= k < length b -> (a ++ cons c b)[length a + 1 + k] = b[k] }; assert { forall k. 0 <= k < length b -> s[i + (length a + 1 + k)] = b[k] }; assert { forall k. 0 <= k < length b -> s[i + length a + 1 + k] = (a ++ cons c b)[length a + 1 + k] }
  let lemma at_cons (s : seq int) (i : int) (b : seq int) (c : int) requires { occ s i (cons c b) } ensures { s[i] = c } ensures { occ s (i + 1) b }
  = assert { length (cons c b) = 1 + length b }; assert { s[i + 0] = (cons c b)[0] }; assert { forall k. 0 <= k < length b -> s[i + 1 + k] = (cons c b)[1 + k] }
  let lemma at_snoc (s : seq int) (i : int) (a : seq int) (c : int) requires { occ s i (snoc a c) } ensures { s[i + length a] = c } ensures { occ s i a }
  = assert { s[i + length a] = (snoc a c)[length a] }; assert { forall k. 0 <= k < length a -> s[i + k] = (snoc a c)[k] }
end
module Expr
  use int.Int
  use seq.Seq
  use cxxstr.Str
  use shunt.Shunt
  use SeqX
  (* numbers and names; none of the one-character operators *)
  predicate aok (t : sstr) = length t >= 1 /\ forall k. 0 <= k < length t -> word t[k] /\ t[k] <> 0 /\ t[k] <> 33 /\ t[k] <> 126 /\ t[k] <> 59 /\ t[k] <> 36
  type e = Atom sstr | Par e | Pow e e | Npow e sstr | Mul int e e | Sgn int e | Add int e e
  function lv (a : e) : int = match a with Atom _ | Par _ -> 4 | Pow _ _ | Npow _ _ -> 3 | Mul _ _ _ -> 2 | _ -> 1 end
  function lead (a : e) : bool = match a with Atom _ -> false | Par _ -> true | Pow b _ -> lead b | Npow b _ -> lead b | Mul _ b _ -> lead b | Sgn _ _ -> false | Add _ b _ -> lead b end
  (* begins with a sign; the sign stands before a parenthesis *)
  predicate signed (a : e) = match a with Sgn _ _ -> true | Add _ b _ -> signed b | _ -> false end
  predicate slead (a : e) = match a with Sgn _ b -> lead b | Add _ b _ -> slead b | _ -> false end
  predicate ok (a : e) = match a with
    | Atom t -> aok t
    | Par b -> ok b
    | Pow b c -> ok b /\ lv b = 4 /\ ok c /\ lv c = 4 /\ (match c with Par d -> not signed d | _ -> true end)
    | Npow b d -> ok b /\ lv b = 4 /\ aok d
    | Mul o b c -> (o = 42 \/ o = 47) /\ ok b /\ lv b >= 2 /\ ok c /\ lv c >= 3
    | Sgn o b -> (o = 43 \/ o = 45) /\ ok b /\ lv b >= 2
    | Add o b c -> (o = 43 \/ o = 45) /\ ok b /\ ok c /\ lv c >= 2 end
  function ren (a : e) : sstr = match a with
    | Atom t -> t
    | Par b -> snoc (cons 40 (ren b)) 41
    | Pow b c -> ren b ++ cons 94 (ren c)
    | Npow b d -> ren b ++ cons 94 (cons 40 (cons 45 (snoc d 41)))
    | Mul o b c -> ren b ++ cons o (ren c)
    | Sgn o b -> cons o (ren b)
    | Add o b c -> ren b ++ cons o (ren c) end
  predicate minus (sg : int) (a : e) = sg = 45 /\ match a with Atom _ -> true | _ -> false end
  (* sg: a sign read before the first operand, 0 if none *)
  function rp (sg : int) (a : e) : seq sstr = match a with
    | Atom t -> singleton (if sg = 0 then t else cons sg t)
    | Par b -> rp 0 b
    | Pow b c -> if minus sg b then snoc (rp 0 b ++ rp 0 c) (chr1 33) else snoc (rp sg b ++ rp 0 c) (chr1 94)
    | Npow b d -> if minus sg b then snoc (snoc (rp 0 b) d) (chr1 59) else snoc (snoc (rp sg b) d) (chr1 126)
    | Mul o b c -> snoc (rp sg b ++ rp 0 c) (chr1 o)
    | Sgn o b -> if lead b then snoc (cons (chr1 48) (rp 0 b)) (chr1 o) else rp o b
    | Add o b c -> snoc (rp sg b ++ rp 0 c) (chr1 o) end
  let rec lemma rp_some (sg : int) (a : e) ensures { length (rp sg a) >= 1 } variant { a }
  = match a with Atom _ -> assert { length (rp sg a) = 1 } | Par b -> rp_some 0 b; assert { rp sg a = rp 0 b }
    | Pow b c -> rp_some sg b; rp_some 0 b; assert { rp sg a = snoc (rp 0 b ++ rp 0 c) (chr1 33) \/ rp sg a = snoc (rp sg b ++ rp 0 c) (chr1 94) }; assert { length (rp sg a) >= 1 } | Npow b d -> rp_some sg b; rp_some 0 b; assert { rp sg a = snoc (snoc (rp 0 b) d) (chr1 59) \/ rp sg a = snoc (snoc (rp sg b) d) (chr1 126) }; assert { length (rp sg a) >= 1 }
    | Mul _ b c -> rp_some sg b; assert { length (rp sg a) >= 1 } | Sgn o b -> rp_some 0 b; rp_some o b; assert { length (rp sg a) >= 1 } | Add _ b c -> rp_some sg b; assert { length (rp sg a) >= 1 } end
  let lemma ends (u v : sstr) (c : int) requires { length u >= 1 } requires { length v >= 1 }
    ensures { let r = u ++ cons c v in length r = length u + 1 + length v /\ r[0] = u[0] /\ r[length r - 1] = v[length v - 1] /\ (length u >= 2 -> r[1] = u[1]) } = assert { length (cons c v) = 1 + length v }; assert { (cons c v)[length v] = v[length v - 1] }
  let lemma ends1 (v : sstr) (c : int) requires { length v >= 1 } ensures { let r = cons c v in length r = 1 + length v /\ r[0] = c /\ r[length r - 1] = v[length v - 1] /\ r[1] = v[0] } = ()
  let lemma ends2 (v : sstr) (c d : int) requires { length v >= 1 } ensures { let r = snoc (cons c v) d in length r = 2 + length v /\ r[0] = c /\ r[length r - 1] = d } = ()
  let lemma endsn (u d : sstr) requires { length u >= 1 } requires { length d >= 1 } ensures { let r = u ++ cons 94 (cons 40 (cons 45 (snoc d 41))) in length r = length u + length d + 4 /\ r[0] = u[0] /\ r[length r - 1] = 41 }
  = let ghost q = pure { cons 40 (cons 45 (snoc d 41)) } in assert { length (cons 45 (snoc d 41)) = length d + 2 /\ (cons 45 (snoc d 41))[length d + 1] = 41 }; assert { length q = length d + 3 /\ q[length d + 2] = 41 }; ends u q 94
  predicate opens (a : e) (r : sstr) = length r >= 1 /\ (let c = r[length r - 1] in word c \/ c = 41)
    /\ (lead a -> r[0] = 40) /\ (signed a -> r[0] = 43 \/ r[0] = 45) /\ (not lead a -> not signed a -> word r[0])
    /\ (slead a -> length r >= 2 /\ r[1] = 40 /\ signed a) /\ (lv a >= 2 -> not signed a) /\ (signed a -> not lead a) /\ (signed a -> not slead a -> length r >= 2 /\ word r[1])
  predicate bounds (r u v : sstr) = length r = length u + 1 + length v /\ r[0] = u[0] /\ r[length r - 1] = v[length v - 1] /\ (length u >= 2 -> r[1] = u[1])
  let lemma opens_bin (a b : e) (r u v : sstr) requires { opens b u } requires { length v >= 1 } requires { let c = v[length v - 1] in word c \/ c = 41 } requires { bounds r u v }
    requires { lead a = lead b } requires { signed a <-> signed b } requires { slead a <-> slead b } requires { lv a >= 2 -> lv b >= 2 } ensures { opens a r } = ()
  let lemma opens_npow (a b : e) (r u : sstr) requires { opens b u } requires { length r >= length u + 4 } requires { r[0] = u[0] } requires { r[length r - 1] = 41 }
    requires { lead a = lead b } requires { not signed a } requires { not slead a } requires { not signed b } ensures { opens a r } = ()
  let lemma opens_sgn (a b : e) (r v : sstr) requires { opens b v } requires { length r = 1 + length v } requires { let k = r[0] in k = 43 \/ k = 45 } requires { r[length r - 1] = v[length v - 1] } requires { r[1] = v[0] }
    requires { not lead a } requires { signed a } requires { slead a <-> lead b } requires { lv a = 1 } requires { not signed b } ensures { opens a r } = ()
  let rec lemma ren_ends (a : e) requires { ok a } ensures { opens a (ren a) } variant { a }
  = match a with Atom t -> assert { opens a t }
    | Par b -> ren_ends b; ends2 (pure { ren b }) 40 41; assert { opens a (ren a) }
    | Pow b c -> ren_ends b; ren_ends c; ends (pure { ren b }) (pure { ren c }) 94; assert { ren a = ren b ++ cons 94 (ren c) }; assert { bounds (ren a) (ren b) (ren c) }; assert { not signed b /\ not slead b }; opens_bin a b (pure { ren a }) (pure { ren b }) (pure { ren c })
    | Npow b d -> ren_ends b; endsn (pure { ren b }) d; assert { ren a = ren b ++ cons 94 (cons 40 (cons 45 (snoc d 41))) }; assert { lv b = 4 /\ not signed b }; opens_npow a b (pure { ren a }) (pure { ren b })
    | Mul o b c -> ren_ends b; ren_ends c; ends (pure { ren b }) (pure { ren c }) o; assert { ren a = ren b ++ cons o (ren c) }; assert { bounds (ren a) (ren b) (ren c) }; assert { not signed b /\ not slead b }; opens_bin a b (pure { ren a }) (pure { ren b }) (pure { ren c })
    | Sgn o b -> ren_ends b; ends1 (pure { ren b }) o; assert { ren a = cons o (ren b) }; assert { lead a = false }; assert { signed a }; assert { slead a <-> lead b }; assert { lv a = 1 }; assert { not signed b }; opens_sgn a b (pure { ren a }) (pure { ren b })
    | Add o b c -> ren_ends b; ren_ends c; ends (pure { ren b }) (pure { ren c }) o; assert { ren a = ren b ++ cons o (ren c) }; assert { bounds (ren a) (ren b) (ren c) }; assert { signed a <-> signed b }; assert { slead a <-> slead b }; assert { lv a = 1 }; opens_bin a b (pure { ren a }) (pure { ren b }) (pure { ren c }) end
end
module Pops
  use int.Int
  use seq.Seq
  use cxxstr.Str
  use shunt.Shunt
  use SeqX
  use Occ
  let lemma lst_snoc (o : seq int) (c : int) ensures { lst (snoc o c) = c } = ()
  let rec lemma popw_emit (w : int) (tk : seq sstr) (o : seq int) (n : int)
    requires { 0 <= n <= length o } requires { forall k. n <= k < length o -> o[k] <> 40 /\ wgt o[k] >= w } requires { n = 0 \/ o[n - 1] = 40 \/ wgt o[n - 1] < w }
    ensures { popw w tk o = (emit tk o n, o[.. n]) } variant { length o }
  = if pure { length o > n } then begin popw_emit w (pure { snoc tk (chr1 (lst o)) }) (pure { o[.. length o - 1] }) n; slice_slice o (length o - 1) n end else slice_all o
  let rec lemma popp_emit (tk : seq sstr) (o : seq int) (n : int)
    requires { 1 <= n <= length o } requires { forall k. n <= k < length o -> o[k] <> 40 } requires { o[n - 1] = 40 }
    ensures { popp tk o = (emit tk o n, o[.. n - 1]) } variant { length o }
  = if pure { length o > n } then begin popp_emit (pure { snoc tk (chr1 (lst o)) }) (pure { o[.. length o - 1] }) n; slice_slice o (length o - 1) (n - 1) end
  let rec lemma emit_one (tk : seq sstr) (o : seq int) (n : int) requires { 0 <= n < length o } ensures { emit tk o n = snoc (emit tk o (n + 1)) (chr1 o[n]) } variant { length o }
  = if pure { length o > n + 1 } then emit_one (pure { snoc tk (chr1 (lst o)) }) (pure { o[.. length o - 1] }) n
  let rec lemma words (s : sstr) (i k : int) (t : sstr) (x : st) requires { occ s i t } requires { forall k. 0 <= k < length t -> word t[k] } requires { 0 <= k <= length t }
    ensures { steps s i (i + k) x = { x with tm = x.tm ++ t[.. k] } } variant { k }
  = if k > 0 then begin words s i (k - 1) t x; assert { s[i + (k - 1)] = t[k - 1] }; let ghost y = steps s i (i + (k - 1)) x in assert { steps s i (i + k) x = step s (i + (k - 1)) y }; assert { word s[i + (k - 1)] }; assert { step s (i + (k - 1)) y = { y with tm = snoc y.tm t[k - 1] } }; assert { y.tm = x.tm ++ t[.. k - 1] }; slice_one t (k - 1); snoc_app (pure { x.tm }) (pure { t[.. k - 1] }) (pure { t[k - 1] }); assert { snoc y.tm t[k - 1] = x.tm ++ t[.. k] } end else begin len0 (pure { t[.. 0] }); app_empty (pure { x.tm }); assert { t[.. 0] = empty }; assert { x.tm ++ t[.. 0] = x.tm }; assert { steps s i (i + 0) x = x } end
end
module ShuntG
  use int.Int
  use seq.Seq
  use cxxstr.Str
  use shunt.Shunt
  use SeqX
  use Occ
  use Expr
  use Pops
  (* after an expression: its operators still waiting, then its notation *)
  predicate aft (x y : st) (l : int) (r : seq sstr) =
    not y.ne /\ not y.bad /\ length y.ops >= length x.ops /\ y.ops[.. length x.ops] = x.ops
    /\ (forall k. length x.ops <= k < length y.ops -> y.ops[k] <> 40 /\ wgt y.ops[k] >= l)
    /\ emit (flush y).tk y.ops (length x.ops) = x.tk ++ r
  predicate below (o : seq int) (l : int) = length o = 0 \/ lst o = 40 \/ wgt (lst o) < l
  predicate group (s : sstr) (i : int) (x : st) = length x.ops > 0 /\ i >= 1 /\ s[i - 1] = 40
  predicate fresh (x : st) = length x.ops = 0 /\ length x.tk = 0
  (* a binary operator after an expression of its level *)
  let ghost opstep (s : sstr) (m : int) (x y : st) (l : int) (r : seq sstr) : st
    requires { 1 <= m < length s } requires { aft x y l r } requires { length r >= 1 } requires { below x.ops l } requires { wgt s[m] = l } requires { l = 1 \/ l = 2 } requires { opr s[m] } requires { s[m - 1] <> 40 }
    ensures { result = step s m y } ensures { result.tk = x.tk ++ r } ensures { result.ops = snoc x.ops s[m] } ensures { result.tm = empty } ensures { not result.ne } ensures { not result.bad }
  = let ghost f = pure { flush y } in
    let ghost n = pure { length x.ops } in
    popw_emit l (pure { f.tk }) (pure { f.ops }) n;
    assert { popw l f.tk f.ops = (x.tk ++ r, x.ops) };
    assert { length f.ops = 0 -> length f.tk >= 1 };
    len0 (pure { y.tm }); assert { f.tm = empty /\ f.ops = y.ops /\ not f.ne };
    assert { operator s m y = binary s m f };
    assert { binary s m f = { f with tk = x.tk ++ r; ops = snoc x.ops s[m] } };
    step s m y
end
module Go
  use int.Int
  use seq.Seq
  use cxxstr.Str
  use shunt.Shunt
  use SeqX
  use Occ
  use Expr
  use Pops
  use ShuntG
  predicate bfin (x y : st) (a : e) = match a with Atom t -> y = { x with tm = x.tm ++ t } | Par b -> y = { x with tk = x.tk ++ rp 0 b } | _ -> true end
  predicate ready (x : st) (sg : int) (a : e) = not x.ne /\ not x.bad /\ ((sg = 0 /\ x.tm = empty) \/ ((sg = 43 \/ sg = 45) /\ x.tm = singleton sg /\ lv a >= 2 /\ not lead a))
  let ghost closestep (s : sstr) (j : int) (x y : st) (l : int) (r : seq sstr) : st
    requires { 0 <= j < length s } requires { s[j] = 41 } requires { aft { x with ops = snoc x.ops 40 } y l r } requires { x.tm = empty } requires { not x.ne } requires { not x.bad }
    ensures { result = step s j y } ensures { result = { x with tk = x.tk ++ r } }
  = let ghost o1 = pure { snoc x.ops 40 } in
    let ghost n = length o1 in
    assert { y.ops[.. n] = o1 }; assert { y.ops[n - 1] = (y.ops[.. n])[n - 1] };
    popp_emit (pure { (flush y).tk }) (pure { y.ops }) n;
    slice_slice (pure { y.ops }) n (n - 1); snoc_slice (pure { x.ops }) 40;
    assert { y.ops[.. n - 1] = x.ops };
    assert { popp (flush y).tk y.ops = (x.tk ++ r, x.ops) };
    assert { closing y = { y with tk = x.tk ++ r; ops = x.ops; tm = empty } };
    assert { step s j y = closing y };
    step s j y
  let ghost join (x x2 y : st) (o l l2 : int) (r1 r2 : seq sstr) : unit
    requires { x2.tk = x.tk ++ r1 } requires { x2.ops = snoc x.ops o } requires { aft x2 y l2 r2 } requires { l2 >= l } requires { wgt o >= l } requires { o <> 40 }
    ensures { aft x y l (snoc (r1 ++ r2) (chr1 o)) }
  = let ghost n = pure { length x.ops } in
    assert { y.ops[.. n + 1] = x2.ops }; assert { y.ops[n] = (y.ops[.. n + 1])[n] };
    slice_slice (pure { y.ops }) (n + 1) n; snoc_slice (pure { x.ops }) o;
    assert { y.ops[.. n] = x.ops };
    emit_one (pure { (flush y).tk }) (pure { y.ops }) n;
    app_app (pure { x.tk }) r1 r2; snoc_app (pure { x.tk }) (pure { r1 ++ r2 }) (pure { chr1 o });
    assert { emit (flush y).tk y.ops n = snoc ((x.tk ++ r1) ++ r2) (chr1 o) };
    assert { forall k. n <= k < length y.ops -> k = n \/ n + 1 <= k }
  let lemma weaken (x y : st) (l l2 : int) (r : seq sstr) requires { aft x y l r } requires { l2 <= l } ensures { aft x y l2 r } = ()
  let lemma below_weaken (o : seq int) (l l2 : int) requires { below o l } requires { l <= l2 } ensures { below o l2 } = ()
  let ghost powstep (s : sstr) (m : int) (x y : st) (b : e) (sg : int) : st
    requires { 1 <= m < length s } requires { s[m] = 94 } requires { ok b } requires { lv b = 4 } requires { bfin x y b } requires { ready x sg b } requires { below x.ops 3 }
    requires { if lead b then s[m - 1] = 41 else word s[m - 1] }
    ensures { result = step s m y } ensures { result.tk = x.tk ++ rp (if minus sg b then 0 else sg) b } ensures { result.tm = empty } ensures { not result.bad } ensures { result.ne <-> negexp s m }
    ensures { result.ops = snoc x.ops (if minus sg b then (if negexp s m then 59 else 33) else if negexp s m then 126 else 94) }
  = let ghost f = pure { flush y } in
    match b with
    | Atom t ->
      let ghost w = pure { x.tm ++ t } in
      assert { y.tm = w /\ length w >= 1 }; assert { f = { x with tk = snoc x.tk w; tm = empty } };
      popw_emit 3 (pure { f.tk }) (pure { x.ops }) (pure { length x.ops }); slice_all (pure { x.ops });
      assert { popw 3 f.tk f.ops = (f.tk, x.ops) };
      assert { lst f.tk = w };
      if sg = 0 then begin app_empty t; assert { w = t }; assert { not neglast s m f.tk }; assert { f.tk = x.tk ++ rp 0 b } end
      else begin single_app sg t; assert { w = cons sg t }; assert { neglast s m f.tk <-> sg = 45 }; cons_tail t sg; assert { w[1 ..] = t }; snoc_set (pure { x.tk }) w t; assert { strip f.tk = snoc x.tk t }; assert { f.tk = x.tk ++ rp sg b }; assert { snoc x.tk t = x.tk ++ rp 0 b } end;
      assert { operator s m y = binary s m f }; assert { step s m y = binary s m f };
      step s m y
    | Par c ->
      len0 (pure { y.tm }); assert { y.tm = empty /\ f = y }; rp_some 0 c;
      popw_emit 3 (pure { f.tk }) (pure { x.ops }) (pure { length x.ops }); slice_all (pure { x.ops });
      assert { popw 3 f.tk f.ops = (f.tk, x.ops) }; assert { not neglast s m f.tk }; assert { not minus sg b }; assert { sg = 0 };
      assert { operator s m y = binary s m f }; assert { step s m y = binary s m f };
      step s m y
    | _ -> absurd
    end
  let ghost signstep (s : sstr) (i : int) (x : st) (o : int) : st
    requires { 0 <= i < length s } requires { s[i] = o } requires { o = 43 \/ o = 45 } requires { x.tm = empty } requires { not x.ne } requires { not x.bad }
    requires { group s i x \/ (fresh x /\ nx s (i + 1) <> 40) }
    ensures { result = step s i x } ensures { result = if nx s (i + 1) = 40 then { x with tk = snoc x.tk (chr1 48); ops = snoc x.ops o } else { x with tm = singleton o } }
  = assert { flush x = x }; assert { cons o x.tm == singleton o }; assert { step s i x = operator s i x }; step s i x
end

module Gram
  use int.Int
  use seq.Seq
  use cxxstr.Str
  use shunt.Shunt
  use SeqX
  use Occ
  use Expr
  use Pops
  use ShuntG
  use Go
  let lemma steps_next (s : sstr) (i k : int) (x : st) requires { i <= k } ensures { steps s i (k + 1) x = step s k (steps s i k x) } = assert { k + 1 - 1 = k }
  let lemma base_last (b : e) requires { ok b } requires { lv b = 4 } ensures { let c = (ren b)[length (ren b) - 1] in if lead b then c = 41 else word c } = ren_ends b; match b with Atom t -> assert { ren b = t } | Par c -> ren_ends c; ends2 (pure { ren c }) 40 41; assert { ren b = snoc (cons 40 (ren c)) 41 } | _ -> absurd end
  (* reading an expression from any state in which an operand is expected *)
  let rec ghost go (s : sstr) (i : int) (a : e) (sg : int) (x : st) : unit
    requires { ok a } requires { occ s i (ren a) } requires { ready x sg a } requires { below x.ops (lv a) } requires { signed a -> group s i x \/ (fresh x /\ not slead a) }
    ensures { aft x (steps s i (i + length (ren a)) x) (lv a) (rp sg a) }
    ensures { lv a = 4 -> bfin x (steps s i (i + length (ren a)) x) a }
    variant { a }
  = ren_ends a;
    let ghost j = pure { i + length (ren a) } in
    match a with
    | Atom t ->
      words s i (length t) t x; slice_all t; app_empty t; slice_all (pure { x.ops });
      let ghost y = steps s i j x in
      let ghost w = pure { x.tm ++ t } in
      assert { y = { x with tm = w } };
      if sg <> 0 then begin single_app sg t; assert { w = cons sg t } end else assert { w = t };
      assert { (flush y).tk = snoc x.tk w }; assert { rp sg a = singleton w }; app_singleton (pure { x.tk }) w;
      assert { emit (flush y).tk y.ops (length x.ops) = x.tk ++ rp sg a }; assert { aft x (steps s i (i + length (ren a)) x) (lv a) (rp sg a) }; assert { lv a = 4 -> bfin x (steps s i (i + length (ren a)) x) a }
    | Par b ->
      ren_ends b;
      let ghost k = pure { i + 1 + length (ren b) } in
      assert { j = k + 1 };
      at_snoc s i (pure { cons 40 (ren b) }) 41; at_cons s i (pure { ren b }) 40;
      assert { s[i] = 40 /\ s[k] = 41 };
      let ghost x1 = pure { { x with ops = snoc x.ops 40 } } in
      assert { step s i x = x1 }; assert { steps s i i x = x }; assert { steps s i (i + 1) x = x1 };
      assert { below x1.ops (lv b) }; assert { group s (i + 1) x1 };
      go s (i + 1) b 0 x1;
      let ghost y1 = steps s (i + 1) k x1 in
      let ghost y = closestep s k x y1 (lv b) (rp 0 b) in
      compose s i (i + 1) k x; steps_next s i k x; assert { steps s i j x = step s k (steps s i k x) };
      assert { y = steps s i j x }; len0 (pure { y.tm }); slice_all (pure { x.ops }); assert { flush y = y }; assert { aft x (steps s i (i + length (ren a)) x) (lv a) (rp sg a) }; assert { lv a = 4 -> bfin x (steps s i (i + length (ren a)) x) a }
    | Mul o b c ->
      ren_ends b; ren_ends c;
      let ghost m = pure { i + length (ren b) } in
      assert { j = m + 1 + length (ren c) };
      at_app s i (pure { ren b }) (pure { ren c }) o;
      below_weaken (pure { x.ops }) 2 (lv b);
      go s i b sg x;
      let ghost y1 = steps s i m x in
      weaken x y1 (lv b) 2 (rp sg b); rp_some sg b;
      assert { s[m - 1] = (ren b)[length (ren b) - 1] };
      let ghost x2 = opstep s m x y1 2 (rp sg b) in
      assert { steps s i (m + 1) x = step s m y1 };
      lst_snoc (pure { x.ops }) o; assert { lst x2.ops = o }; assert { wgt o < lv c }; assert { below x2.ops (lv c) };
      go s (m + 1) c 0 x2;
      compose s i (m + 1) j x;
      join x x2 (steps s (m + 1) j x2) o 2 (lv c) (rp sg b) (rp 0 c); assert { aft x (steps s i (i + length (ren a)) x) (lv a) (rp sg a) }; assert { lv a = 4 -> bfin x (steps s i (i + length (ren a)) x) a }
    | Add o b c ->
      ren_ends b; ren_ends c;
      let ghost m = pure { i + length (ren b) } in
      assert { j = m + 1 + length (ren c) };
      at_app s i (pure { ren b }) (pure { ren c }) o;
      below_weaken (pure { x.ops }) 1 (lv b);
      assert { sg = 0 };
      go s i b sg x;
      let ghost y1 = steps s i m x in
      weaken x y1 (lv b) 1 (rp sg b); rp_some sg b;
      assert { s[m - 1] = (ren b)[length (ren b) - 1] };
      let ghost x2 = opstep s m x y1 1 (rp sg b) in
      assert { steps s i (m + 1) x = step s m y1 };
      lst_snoc (pure { x.ops }) o; assert { lst x2.ops = o }; assert { wgt o < lv c }; assert { below x2.ops (lv c) };
      go s (m + 1) c 0 x2;
      compose s i (m + 1) j x;
      join x x2 (steps s (m + 1) j x2) o 1 (lv c) (rp sg b) (rp 0 c); assert { aft x (steps s i (i + length (ren a)) x) (lv a) (rp sg a) }; assert { lv a = 4 -> bfin x (steps s i (i + length (ren a)) x) a }
    | Sgn o b ->
      ren_ends b;
      at_cons s i (pure { ren b }) o;
      assert { j = i + 1 + length (ren b) };
      assert { s[i + 1] = s[(i + 1) + 0] }; assert { s[i + 1] = (ren b)[0] };
      assert { sg = 0 };
      assert { nx s (i + 1) = 40 <-> lead b };
      let ghost x1 = signstep s i x o in
      assert { steps s i i x = x }; assert { steps s i (i + 1) x = x1 };
      compose s i (i + 1) j x;
      if lead b then begin
        assert { below x1.ops (lv b) };
        go s (i + 1) b 0 x1;
        app_singleton (pure { x.tk }) (chr1 48); single_app (chr1 48) (rp 0 b);
        join x x1 (steps s (i + 1) j x1) o 1 (lv b) (pure { singleton (chr1 48) }) (rp 0 b); assert { rp sg a = snoc (cons (chr1 48) (rp 0 b)) (chr1 o) };
        assert { aft x (steps s i j x) 1 (rp sg a) }
      end else begin
        below_weaken (pure { x.ops }) 1 (lv b);
        go s (i + 1) b o x1;
        assert { aft x1 (steps s (i + 1) j x1) (lv b) (rp o b) };
        assert { x1.ops = x.ops /\ x1.tk = x.tk }; assert { aft x (steps s (i + 1) j x1) (lv b) (rp o b) };
        weaken x (steps s (i + 1) j x1) (lv b) 1 (rp o b); assert { rp sg a = rp o b };
        assert { aft x (steps s i j x) 1 (rp sg a) }
      end; assert { lv a = 1 /\ j = i + length (ren a) }; assert { aft x (steps s i (i + length (ren a)) x) (lv a) (rp sg a) }; assert { lv a = 4 -> bfin x (steps s i (i + length (ren a)) x) a }
    | Pow b c ->
      ren_ends b; ren_ends c;
      let ghost m = pure { i + length (ren b) } in
      assert { j = m + 1 + length (ren c) };
      at_app s i (pure { ren b }) (pure { ren c }) 94;
      go s i b sg x;
      let ghost y1 = steps s i m x in
      assert { s[m - 1] = (ren b)[length (ren b) - 1] };
      base_last b;
      let ghost x2 = powstep s m x y1 b sg in
      assert { steps s i (m + 1) x = step s m y1 };
      assert { s[m + 1] = (ren c)[0] };
      assert { not negexp s m };
      assert { below x2.ops 4 };
      go s (m + 1) c 0 x2;
      compose s i (m + 1) j x;
      let ghost sb = if minus sg b then 0 else sg in
      let ghost o = if minus sg b then 33 else 94 in
      assert { rp sg a = snoc (rp sb b ++ rp 0 c) (chr1 o) };
      join x x2 (steps s (m + 1) j x2) o 3 4 (rp sb b) (rp 0 c); assert { aft x (steps s i (i + length (ren a)) x) (lv a) (rp sg a) }; assert { lv a = 4 -> bfin x (steps s i (i + length (ren a)) x) a }
    | Npow b d ->
      ren_ends b;
      let ghost m = pure { i + length (ren b) } in
      let ghost k = pure { m + 3 + length d } in
      let ghost r3 = pure { snoc d 41 } in let ghost r2 = pure { cons 45 r3 } in let ghost r1 = pure { cons 40 r2 } in
      assert { length r3 = length d + 1 }; assert { length r2 = length d + 2 }; assert { length r1 = length d + 3 };
      assert { j = k + 1 };
      at_app s i (pure { ren b }) r1 94; at_cons s (m + 1) r2 40; at_cons s (m + 2) r3 45; at_snoc s (m + 3) d 41;
      assert { s[m + 3] = s[(m + 3) + 0] }; assert { s[m + 3] = d[0] }; assert { s[k] = 41 };
      go s i b sg x;
      let ghost y1 = steps s i m x in
      assert { s[m - 1] = (ren b)[length (ren b) - 1] };
      base_last b;
      let ghost x2 = powstep s m x y1 b sg in
      assert { steps s i (m + 1) x = x2 };
      assert { negexp s m };
      let ghost x3 = pure { { x2 with ops = snoc x2.ops 40 } } in
      assert { step s (m + 1) x2 = x3 }; assert { steps s i (m + 2) x = x3 };
      let ghost x4 = pure { { x3 with ne = false } } in
      assert { operator s (m + 2) x3 = x4 }; assert { step s (m + 2) x3 = x4 }; assert { steps s i (m + 3) x = x4 };
      words s (m + 3) (length d) d x4; slice_all d; app_empty d;
      let ghost x5 = steps s (m + 3) k x4 in
      assert { x5 = { x4 with tm = d } };
      compose s i (m + 3) k x;
      let ghost z = pure { { x2 with ne = false } } in
      app_empty (pure { x5.ops }); slice_all (pure { x5.ops });
      assert { (flush x5).tk = snoc x2.tk d }; app_singleton (pure { x2.tk }) d;
      assert { emit (flush x5).tk x5.ops (length x5.ops) = x2.tk ++ singleton d };
      assert { aft { z with ops = snoc z.ops 40 } x5 4 (singleton d) };
      let ghost y = closestep s k z x5 4 (pure { singleton d }) in
      assert { steps s i j x = step s k x5 };
      assert { y = steps s i j x };
      len0 (pure { y.tm }); assert { flush y = y }; slice_all (pure { y.ops });
      assert { aft x2 y 4 (singleton d) };
      let ghost sb = if minus sg b then 0 else sg in
      let ghost o = if minus sg b then 59 else 126 in
      app_singleton (rp sb b) d; assert { rp sg a = snoc (snoc (rp sb b) d) (chr1 o) };
      assert { rp sg a = snoc (rp sb b ++ singleton d) (chr1 o) };
      join x x2 y o 3 4 (rp sb b) (pure { singleton d });
      assert { aft x y 3 (rp sg a) }; assert { lv a = 3 }; assert { i + length (ren a) = k + 1 }; assert { steps s i (i + length (ren a)) x = y }; assert { aft x (steps s i (i + length (ren a)) x) (lv a) (rp sg a) }; assert { lv a = 4 -> bfin x (steps s i (i + length (ren a)) x) a }
    end
end

module Whole
  use int.Int
  use seq.Seq
  use cxxstr.Str
  use shunt.Shunt
  use SeqX
  use Occ
  use Expr
  use Pops
  use ShuntG
  use Go
  use Gram
  (* a sign before a parenthesis at the very beginning: -(..) is 0-(..), +(..) is (..) *)
  function norm (a : e) : e = match a with Sgn o b -> if lead b then (if o = 45 then Add 45 (Atom (chr1 48)) b else b) else a | Add o b c -> Add o (norm b) c | _ -> a end
  let rec lemma norm_ok (a : e) requires { ok a } ensures { ok (norm a) } ensures { not slead (norm a) } ensures { signed (norm a) -> signed a } variant { a }
  = ren_ends a; match a with Add _ b _ -> norm_ok b | Sgn _ b -> ren_ends b; assert { aok (chr1 48) } | _ -> () end
  let rec ghost base_three (b : e) : unit requires { ok b } requires { lead b } ensures { length (ren b) >= 3 } variant { b }
  = match b with Par c -> ren_ends c | Pow c d -> base_three c; ren_ends d | Npow c _ -> base_three c | Mul _ c d -> base_three c; ren_ends d | Add _ c d -> base_three c; ren_ends d | _ -> absurd end
  let rec ghost norm_id (a : e) : unit requires { ok a } requires { not slead a } ensures { norm a = a } variant { a } = match a with Add _ b _ -> norm_id b | _ -> () end
  let ghost nz (u v : sstr) (c : int) : unit requires { forall k. 0 <= k < length u -> u[k] <> 0 } requires { forall k. 0 <= k < length v -> v[k] <> 0 } requires { c <> 0 } ensures { forall k. 0 <= k < length (u ++ cons c v) -> (u ++ cons c v)[k] <> 0 } = ()
  let ghost nzc (v : sstr) (c : int) : unit requires { forall k. 0 <= k < length v -> v[k] <> 0 } requires { c <> 0 } ensures { forall k. 0 <= k < length (cons c v) -> (cons c v)[k] <> 0 } = ()
  let ghost nzs (v : sstr) (c : int) : unit requires { forall k. 0 <= k < length v -> v[k] <> 0 } requires { c <> 0 } ensures { forall k. 0 <= k < length (snoc v c) -> (snoc v c)[k] <> 0 } = ()
  let rec ghost no_null (a : e) : unit requires { ok a } ensures { forall k. 0 <= k < length (ren a) -> (ren a)[k] <> 0 } variant { a }
  = match a with Atom t -> assert { ren a = t } | Par b -> no_null b; nzc (pure { ren b }) 40; nzs (pure { cons 40 (ren b) }) 41; assert { ren a = snoc (cons 40 (ren b)) 41 } | Pow b c -> no_null b; no_null c; nz (pure { ren b }) (pure { ren c }) 94; assert { ren a = ren b ++ cons 94 (ren c) }
    | Npow b d -> no_null b; nzs d 41; nzc (pure { snoc d 41 }) 45; nzc (pure { cons 45 (snoc d 41) }) 40; nz (pure { ren b }) (pure { cons 40 (cons 45 (snoc d 41)) }) 94; assert { ren a = ren b ++ cons 94 (cons 40 (cons 45 (snoc d 41))) }
    | Mul o b c -> no_null b; no_null c; nz (pure { ren b }) (pure { ren c }) o; assert { ren a = ren b ++ cons o (ren c) } | Sgn o b -> no_null b; nzc (pure { ren b }) o; assert { ren a = cons o (ren b) } | Add o b c -> no_null b; no_null c; nz (pure { ren b }) (pure { ren c }) o; assert { ren a = ren b ++ cons o (ren c) } end
  let rec ghost norm_text (a : e) : unit requires { ok a } requires { slead a } ensures { ren (norm a) = if (ren a)[0] = 43 then (ren a)[1 ..] else cons 48 (ren a) } ensures { length (ren a) >= 3 } variant { a }
  = match a with
    | Sgn o b -> ren_ends b; base_three b; cons_tail (pure { ren b }) o; single_app 48 (pure { cons o (ren b) }); assert { ren a = cons o (ren b) }; if o = 45 then begin assert { ren (norm a) = chr1 48 ++ cons 45 (ren b) } end else assert { norm a = b }
    | Add o b c -> norm_text b; ren_ends b; ren_ends c; ends (pure { ren b }) (pure { ren c }) o; let ghost u = pure { ren b } in let ghost v = pure { cons o (ren c) } in assert { ren a = u ++ v };
      app_tail u v; assert { cons 48 (u ++ v) == cons 48 u ++ v }; assert { ren (norm a) = ren (norm b) ++ v }
    | _ -> absurd end
  let ghost fix_norm (a : e) : unit requires { ok a } ensures { fixup (ren a) = ren (norm a) }
  = ren_ends a; if pure { slead a } then norm_text a else begin assert { not (((ren a)[0] = 43 \/ (ren a)[0] = 45) /\ length (ren a) > 2 /\ (ren a)[1] = 40) }; norm_id a end
  let lemma reading (a : e) requires { ok a } ensures { acceptable (ren a) } ensures { fin (machine (ren a)) = rp 0 (norm a) }
  = fix_norm a; norm_ok a;
    let ghost b = pure { norm a } in let ghost s = pure { ren b } in
    assert { occ s 0 s }; app_empty (pure { empty : sstr });
    go s 0 b 0 (pure { start });
    let ghost y = pure { machine (ren a) } in
    assert { y = steps s 0 (0 + length s) start };
    assert { length start.ops = 0 };
    app_empty (rp 0 b);
    no_null a
end
