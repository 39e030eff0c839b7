import Mathlib.NumberTheory.LucasPrimality
import Mathlib.Data.Nat.Prime.Basic
/-! A verified checker for primality certificates (Pratt).  The list of moduli extracted from
    source/ReconstHelper.cpp and its certificates are appended to this file on every run. -/
namespace Pratt

/-- acc * a^n mod m by square and multiply; n < 2^fuel -/
def pw : Nat → Nat → Nat → Nat → Nat → Nat
  | 0, _, _, _, acc => acc
  | f + 1, m, a, n, acc => pw f m (a * a % m) (n / 2) (bif Nat.beq (n % 2) 1 then acc * a % m else acc)

theorem pw_spec (f m a n acc : Nat) (h : n < 2 ^ f) : pw f m a n acc ≡ acc * a ^ n [MOD m] := by
  induction f generalizing a n acc with
  | zero =>
    have : n = 0 := by simpa using h
    subst this
    simp [pw, Nat.ModEq]
  | succ f ih =>
    have h2 : n / 2 < 2 ^ f := by rw [pow_succ] at h; omega
    have hs := ih (a * a % m) (n / 2) (bif Nat.beq (n % 2) 1 then acc * a % m else acc) h2
    rw [pw]
    refine hs.trans ?_
    have hp : (a * a % m) ^ (n / 2) ≡ (a * a) ^ (n / 2) [MOD m] := Nat.ModEq.pow _ (Nat.mod_modEq _ _)
    have e : (a * a) ^ (n / 2) = a ^ (2 * (n / 2)) := by rw [← pow_two, ← pow_mul]
    rcases Nat.mod_two_eq_zero_or_one n with h0 | h1
    · rw [h0]
      have : Nat.beq 0 1 = false := rfl
      rw [this]
      have e2 : 2 * (n / 2) = n := by omega
      refine (Nat.ModEq.mul_left acc hp).trans ?_
      rw [e, e2]
    · rw [h1]
      have : Nat.beq 1 1 = true := rfl
      rw [this]
      have e2 : 2 * (n / 2) + 1 = n := by omega
      refine (Nat.ModEq.mul (Nat.mod_modEq _ _) hp).trans ?_
      rw [e]
      have : acc * a * a ^ (2 * (n / 2)) = acc * a ^ (2 * (n / 2) + 1) := by ring
      rw [this, e2]

/-- candidate, witness, prime factors of candidate - 1 with multiplicity -/
abbrev Entry := Nat × Nat × List Nat

def ok (known : List Nat) (e : Entry) : Bool :=
  Nat.blt 1 e.1 && Nat.blt e.1 (2 ^ 64) &&
  Nat.beq (pw 64 e.1 e.2.1 (e.1 - 1) 1 % e.1) 1 &&
  Nat.beq (e.2.2.foldr (· * ·) 1) (e.1 - 1) &&
  e.2.2.all (fun q => known.any (Nat.beq q) && !Nat.beq (pw 64 e.1 e.2.1 ((e.1 - 1) / q) 1 % e.1) 1)

def check : List Nat → List Entry → Bool
  | _, [] => true
  | known, e :: es => ok known e && check (e.1 :: known) es

theorem mem_of_dvd (q : Nat) (hq : q.Prime) (l : List Nat) (hl : ∀ x ∈ l, x.Prime) (h : q ∣ l.foldr (· * ·) 1) : q ∈ l := by
  induction l with
  | nil => simp at h; exact absurd (h ▸ hq) Nat.not_prime_one
  | cons x xs ih =>
    simp only [List.foldr_cons] at h
    rcases (Nat.Prime.dvd_mul hq).mp h with h1 | h2
    · have := (Nat.prime_dvd_prime_iff_eq hq (hl x (by simp))).mp h1
      simp [this]
    · exact List.mem_cons_of_mem _ (ih (fun y hy => hl y (List.mem_cons_of_mem _ hy)) h2)

theorem ok_prime (known : List Nat) (e : Entry) (hk : ∀ q ∈ known, q.Prime) (h : ok known e = true) : e.1.Prime := by
  obtain ⟨p, a, fs⟩ := e
  simp only [ok, Bool.and_eq_true, Nat.blt_eq, List.all_eq_true, List.any_eq_true,
    Bool.not_eq_true'] at h
  obtain ⟨⟨⟨⟨h1, h64⟩, hf⟩, hprod⟩, hall⟩ := h
  replace hf := Nat.eq_of_beq_eq_true hf
  replace hprod := Nat.eq_of_beq_eq_true hprod
  have hlt : ∀ n, n ≤ p - 1 → n < 2 ^ 64 := fun n hn => by omega
  have one_mod : 1 % p = 1 := Nat.mod_eq_of_lt h1
  have hfs : ∀ q ∈ fs, q.Prime := by
    intro q hq
    obtain ⟨⟨y, hy, he⟩, -⟩ := hall q hq
    rw [Nat.eq_of_beq_eq_true he]; exact hk y hy
  have key : ∀ n, n ≤ p - 1 → (((a : ZMod p) ^ n = 1) ↔ pw 64 p a n 1 % p = 1) := by
    intro n hn
    have hs := pw_spec 64 p a n 1 (hlt n hn)
    rw [one_mul] at hs
    have : ((a : ZMod p) ^ n = 1) ↔ a ^ n ≡ 1 [MOD p] := by
      rw [← ZMod.natCast_eq_natCast_iff]; push_cast; rfl
    rw [this]
    unfold Nat.ModEq at *
    rw [hs, one_mod]
  refine lucas_primality p (a : ZMod p) ((key _ le_rfl).mpr hf) ?_
  intro q hq hd
  have hm : q ∈ fs := mem_of_dvd q hq fs hfs (by rw [hprod]; exact hd)
  obtain ⟨-, hne⟩ := hall q hm
  rw [Ne, key _ (Nat.div_le_self _ _)]
  intro hc
  exact Nat.ne_of_beq_eq_false hne hc

theorem check_prime (known : List Nat) (es : List Entry) (hk : ∀ q ∈ known, q.Prime) (h : check known es = true) :
    ∀ e ∈ es, e.1.Prime := by
  induction es generalizing known with
  | nil => simp
  | cons x xs ih =>
    simp only [check, Bool.and_eq_true] at h
    have hx := ok_prime known x hk h.1
    intro e he
    rcases List.mem_cons.mp he with rfl | he
    · exact hx
    · exact ih (x.1 :: known) (by intro q hq; rcases List.mem_cons.mp hq with rfl | hq; exacts [hx, hk q hq]) h.2 e he

/-- certificate of one modulus: the last entry is the modulus itself -/
def good (p : Nat) (c : List Entry) : Bool := check [] c && c.any (fun e => Nat.beq e.1 p) && Nat.blt (2 ^ 62) p && Nat.blt p (2 ^ 63)

theorem good_spec (p : Nat) (c : List Entry) (h : good p c = true) : p.Prime ∧ 2 ^ 62 < p ∧ p < 2 ^ 63 := by
  simp only [good, Bool.and_eq_true, Nat.blt_eq, List.any_eq_true] at h
  obtain ⟨⟨⟨hc, ⟨e, he, hp⟩⟩, hl⟩, hu⟩ := h
  exact ⟨Nat.eq_of_beq_eq_true hp ▸ check_prime [] c (by simp) hc e he, hl, hu⟩

def allGood : List Nat → List (List Entry) → Bool
  | [], [] => true
  | p :: ps, c :: cs => good p c && allGood ps cs
  | _, _ => false

theorem allGood_spec (ps : List Nat) (cs : List (List Entry)) (h : allGood ps cs = true) :
    ∀ p ∈ ps, p.Prime ∧ 2 ^ 62 < p ∧ p < 2 ^ 63 := by
  induction ps generalizing cs with
  | nil => simp
  | cons x xs ih =>
    cases cs with
    | nil => simp [allGood] at h
    | cons c cs =>
      simp only [allGood, Bool.and_eq_true] at h
      intro p hp
      rcases List.mem_cons.mp hp with rfl | hp
      · exact good_spec _ c h.1
      · exact ih cs h.2 p hp

/-- no element occurs twice -/
def distinct : List Nat → Bool
  | [] => true
  | x :: xs => xs.all (fun y => !Nat.beq x y) && distinct xs

theorem distinct_spec (l : List Nat) (h : distinct l = true) : l.Nodup := by
  induction l with
  | nil => simp
  | cons x xs ih =>
    simp only [distinct, Bool.and_eq_true, List.all_eq_true, Bool.not_eq_true'] at h
    refine List.nodup_cons.mpr ⟨fun hm => ?_, ih h.2⟩
    have := h.1 x hm
    exact Nat.ne_of_beq_eq_false this rfl
end Pratt
