(* std::string as a sequence of character codes *)
module Str
  use int.Int
  use seq.Seq
  use cxx.Base
  use cxx.Vec
  use cxxint.U64
  type sstr = seq int
  val s_eq (a b : sstr) : bool ensures { result <-> a = b }
  let constant s_empty : sstr = empty
  function chr1 (c : int) : sstr = singleton c
  let lemma chr1_spec (s : sstr) (c : int) ensures { s = chr1 c <-> length s = 1 /\ s[0] = c } = assert { length s = 1 /\ s[0] = c -> s == chr1 c }
  let s_lit1 (c : int) : sstr ensures { result = chr1 c } = singleton c
  (* s[s.size()] is the terminating null character *)
  val s_get (s : sstr) (i : int) : int requires { [@expl:character index in range] 0 <= i <= length s } ensures { result = if i = length s then 0 else s[i] } ensures { [@expl:a char] -128 <= result <= 127 }
  val s_erase (s : sstr) (i n : int) : sstr requires { [@expl:erase position in range] 0 <= i <= length s } requires { n >= 0 } ensures { result = if i = 0 /\ n <= length s then s[n ..] else if i + n >= length s then s[..i] else s[..i] ++ s[i + n ..] }
  val s_erase1 (s : sstr) (i : int) : sstr requires { [@expl:erase position in range] 0 <= i < length s } ensures { result = if i = 0 then s[1 ..] else s[.. i] ++ s[i + 1 ..] }
  val s_insert (s : sstr) (i c : int) : sstr requires { [@expl:insert position in range] 0 <= i <= length s } ensures { result = if i = 0 then cons c s else s[.. i] ++ cons c s[i ..] }
  val s_front (s : sstr) : int requires { [@expl:front of a string] length s > 0 } ensures { result = s[0] }
  val s_back (s : sstr) : int requires { [@expl:back of a string] length s > 0 } ensures { result = s[length s - 1] }
  val s_fill (n c : int) : sstr requires { 0 <= n } ensures { result = create n (fun _ -> c) /\ (n = 1 -> result = chr1 c) }
  val s_cat (a b : sstr) : sstr ensures { result = a ++ b }
  predicate digit (c : int) = 48 <= c <= 57
  predicate digits (s : sstr) = length s >= 1 /\ forall i. 0 <= i < length s -> digit s[i]
  let rec ghost function dec_upto (s : sstr) (k : int) : int variant { k } = if k <= 0 then 0 else 10 * dec_upto s (k - 1) + pure { s[k - 1] - 48 }
  function dec (s : sstr) : int = dec_upto s (length s)
  let rec function pow10 (k : int) : int variant { k } = if k <= 0 then 1 else 10 * pow10 (k - 1)
  let rec lemma pow10_pos (k : int) requires { 0 <= k } ensures { pow10 k >= 1 } variant { k } = if k > 0 then pow10_pos (k - 1)
  let rec lemma dec_bound (s : sstr) (k : int) requires { digits s } requires { 0 <= k <= length s } ensures { 0 <= dec_upto s k < pow10 k } variant { k } = if k > 0 then dec_bound s (k - 1)
  let rec lemma pow10_mono (a b : int) requires { 0 <= a <= b } ensures { pow10 a <= pow10 b } variant { b - a } = if a < b then pow10_mono a (b - 1)
  let lemma pow10_18 () ensures { pow10 18 = 1000000000000000000 }
  = assert { pow10 1 = 10 }; assert { pow10 3 = 1000 }; assert { pow10 6 = 1000000 }; assert { pow10 9 = 1000000000 }; assert { pow10 12 = 1000000000000 }; assert { pow10 15 = 1000000000000000 }
  (* decimal digits only: nothing is skipped or ignored *)
  val s_stoull (s : sstr) : int requires { [@expl:stoull of a number] digits s } requires { [@expl:stoull argument in range] dec s <= 18446744073709551615 } ensures { result = dec s }
  val s_mpz (s : sstr) : int requires { [@expl:mpz_class of a number] digits s \/ (length s >= 1 /\ s[0] = 45 /\ digits s[1..]) } ensures { result = if s[0] = 45 then - dec s[1..] else dec s }
  val s_isdigit (c : int) : int ensures { result <> 0 <-> digit c } ensures { -2147483648 <= result <= 2147483647 }
end
