(* The shunting yard: what one character does to the tokens, the operators waiting, the operand being read. *)
module Shunt
  use int.Int
  use seq.Seq
  use cxxstr.Str
  predicate opr (c : int) = c = 43 \/ c = 45 \/ c = 42 \/ c = 47 \/ c = 94
  function wgt (c : int) : int = if c = 94 \/ c = 33 \/ c = 126 \/ c = 59 then 3 else if c = 47 \/ c = 42 then 2 else if c = 43 \/ c = 45 then 1 else 0
  (* characters of numbers and names *)
  predicate word (c : int) = not opr c /\ c <> 40 /\ c <> 41 /\ c <> 32
  type st = { tk : seq sstr; ops : seq int; tm : sstr; ne : bool; bad : bool }
  function flush (x : st) : st = if length x.tm > 0 then { x with tk = snoc x.tk x.tm; tm = empty } else x
  function lst (o : seq 'a) : 'a = o[length o - 1]
  let rec ghost function popw (w : int) (tk : seq sstr) (o : seq int) : (seq sstr, seq int) variant { length o }
  = if pure { length o > 0 /\ lst o <> 40 /\ wgt (lst o) >= w } then popw w (pure { snoc tk (chr1 (lst o)) }) (pure { o[.. length o - 1] }) else (tk, o)
  let rec ghost function popp (tk : seq sstr) (o : seq int) : (seq sstr, seq int) variant { length o }
  = if pure { length o = 0 } then (tk, o) else if pure { lst o = 40 } then (tk, pure { o[.. length o - 1] }) else popp (pure { snoc tk (chr1 (lst o)) }) (pure { o[.. length o - 1] })
  (* all waiting operators above the first n, last one first *)
  let rec ghost function emit (tk : seq sstr) (o : seq int) (n : int) : seq sstr requires { n >= 0 } variant { length o }
  = if pure { length o <= n } then tk else emit (pure { snoc tk (chr1 (lst o)) }) (pure { o[.. length o - 1] }) n
  function nx (s : sstr) (i : int) : int = if i < length s then s[i] else 0
  predicate neglast (s : sstr) (i : int) (tk : seq sstr) = length (lst tk) > 1 /\ (lst tk)[0] = 45 /\ s[i - 1] <> 41
  function strip (tk : seq sstr) : seq sstr = tk[length tk - 1 <- (lst tk)[1 ..]]
  predicate negexp (s : sstr) (i : int) = nx s (i + 1) = 40 /\ nx s (i + 2) = 45
  (* an operator between two operands *)
  function binary (s : sstr) (i : int) (y : st) : st =
    let c = s[i] in
    match popw (wgt c) y.tk y.ops with
    | tk, op ->
      if c <> 94 then { y with tk = tk; ops = snoc op c }
      else if length tk = 0 then { y with bad = true }
      else if negexp s i then (if neglast s i tk then { y with tk = strip tk; ops = snoc op 59; ne = true } else { y with tk = tk; ops = snoc op 126; ne = true })
      else if neglast s i tk then { y with tk = strip tk; ops = snoc op 33 } else { y with tk = tk; ops = snoc op 94 }
    end
  function operator (s : sstr) (i : int) (x : st) : st =
    let y = if x.ne then x else flush x in
    let c = s[i] in
    if length y.ops > 0 /\ s[i - 1] = 40 then
      (if nx s (i + 1) = 40 then { y with tk = snoc y.tk (chr1 48); ops = snoc y.ops c } else if x.ne then { y with ne = false } else { y with tm = cons c y.tm })
    else if length y.ops = 0 /\ length y.tk = 0 then { y with tm = cons c y.tm }
    else binary s i y
  function closing (x : st) : st = match popp (flush x).tk x.ops with tk, op -> { x with tk = tk; ops = op; tm = empty } end
  let ghost function step (s : sstr) (i : int) (x : st) : st
  = pure { if word s[i] then { x with tm = snoc x.tm s[i] } else if opr s[i] then operator s i x else if s[i] = 40 then { x with ops = snoc x.ops 40 } else if s[i] = 41 then closing x else x }
  let rec ghost function steps (s : sstr) (i j : int) (x : st) : st variant { j - i } = if j <= i then x else step s (j - 1) (steps s i (j - 1) x)
  function start : st = { tk = empty; ops = empty; tm = empty; ne = false; bad = false }
  function fin (x : st) : seq sstr = emit (flush x).tk x.ops 0
  (* a sign in front of a parenthesis at the very beginning *)
  function fixup (s : sstr) : sstr = if length s > 2 /\ s[1] = 40 then (if s[0] = 43 then s[1 ..] else if s[0] = 45 then cons 48 s else s) else s
  function machine (s : sstr) : st = let f = fixup s in steps f 0 (length f) start
  predicate acceptable (s : sstr) = not (machine s).bad /\ forall k. 0 <= k < length s -> s[k] <> 0
  let lemma bad_binary (s : sstr) (i : int) (y : st) requires { y.bad } ensures { (binary s i y).bad }
  = let ghost (a, b) = popw (pure { wgt s[i] }) (pure { y.tk }) (pure { y.ops }) in assert { popw (wgt s[i]) y.tk y.ops = (a, b) }
  let lemma bad_operator (s : sstr) (i : int) (x : st) requires { x.bad } ensures { (operator s i x).bad } = assert { (flush x).bad }
  let lemma bad_closing (x : st) requires { x.bad } ensures { (closing x).bad } = let ghost (a, b) = popp (pure { (flush x).tk }) (pure { x.ops }) in assert { popp (flush x).tk x.ops = (a, b) }
  let lemma bad_stays (s : sstr) (i : int) (x : st) requires { x.bad } ensures { (step s i x).bad } = ()
  let rec lemma bad_prefix (s : sstr) (i k j : int) (x : st) requires { i <= k <= j } requires { not (steps s i j x).bad } ensures { not (steps s i k x).bad } variant { j - k }
  = if k < j then begin if pure { (steps s i (j - 1) x).bad } then bad_stays s (j - 1) (steps s i (j - 1) x); bad_prefix s i k (j - 1) x end
  let rec lemma compose (s : sstr) (i j k : int) (x : st) requires { i <= j <= k } ensures { steps s i k x = steps s j k (steps s i j x) } variant { k - j }
  = if j < k then compose s i j (k - 1) x
  let ghost one_step (s : sstr) (i : int) (x : st) requires { i >= 0 } ensures { steps s 0 (i + 1) x = step s i (steps s 0 i x) } = assert { i + 1 - 1 = i }
end

module Chars
  use int.Int
  (* the letters of names *)
  predicate letter (c : int) = 65 <= c <= 90 \/ 97 <= c <= 122
end
