import Mathlib.Tactic
import Mathlib.Data.Int.GCD
/-! Completeness of rational reconstruction: the remainder sequence contains every small fraction. -/

theorem ratrec_pos (p r t newr newt a n d : ℤ) (hp : 0 < p) (hodd : p % 2 = 1)
    (h0 : 0 ≤ newr) (hnt : 0 < newt) (ht : t ≤ 0)
    (hdet : r * newt - newr * t = p) (hr : p ∣ r - a * t) (hnr : p ∣ newr - a * newt)
    (hsmall : 2 * (newr * newr) ≤ p) (hbig : p < 2 * (r * r)) (hrpos : 0 < r)
    (hd : 0 < d) (hcop : Int.gcd n d = 1) (hnd : p ∣ n - a * d)
    (hn2 : 2 * (n * n) ≤ p) (hd2 : 2 * (d * d) ≤ p) : newr = n ∧ newt = d := by
  have e1 : p ∣ n * newt - d * newr := by
    have : n * newt - d * newr = (n - a * d) * newt - d * (newr - a * newt) := by ring
    rw [this]; exact dvd_sub (Dvd.dvd.mul_right hnd _) (Dvd.dvd.mul_left hnr _)
  have e2 : p ∣ r * d - t * n := by
    have : r * d - t * n = (r - a * t) * d - t * (n - a * d) := by ring
    rw [this]; exact dvd_sub (Dvd.dvd.mul_right hr _) (Dvd.dvd.mul_left hnd _)
  obtain ⟨α, hα⟩ := e1
  obtain ⟨β, hβ⟩ := e2
  have hp' : p ≠ 0 := by omega
  have en : n = α * r + β * newr := by
    apply mul_left_cancel₀ hp'
    have : p * (α * r + β * newr) = (p * α) * r + (p * β) * newr := by ring
    rw [this, ← hα, ← hβ, ← hdet]; ring
  have ed : d = α * t + β * newt := by
    apply mul_left_cancel₀ hp'
    have : p * (α * t + β * newt) = (p * α) * t + (p * β) * newt := by ring
    rw [this, ← hα, ← hβ, ← hdet]; ring
  have hα0 : α = 0 := by
    by_contra hne
    rcases lt_or_gt_of_ne hne with hneg | hpos
    · -- α ≤ -1
      by_cases hb : β ≤ 0
      · have : n ≤ -r := by nlinarith
        nlinarith
      · have hb1 : 1 ≤ β := by omega
        have hdn : newt ≤ d := by nlinarith
        have k1 : p ≤ d * newr - n * newt := by nlinarith
        have k2 : - n * newt ≤ |n| * d := by
          have := neg_abs_le n
          have := abs_nonneg n
          nlinarith
        have k3 : 2 * (d * d) ≤ p - 1 := by omega
        have k4 : 2 * (newr * newr) ≤ p - 1 := by omega
        have k5 : 2 * (|n| * |n|) ≤ p - 1 := by rw [abs_mul_abs_self]; omega
        nlinarith [sq_nonneg (d - newr), sq_nonneg (d - |n|)]
    · -- α ≥ 1
      by_cases hb : 0 ≤ β
      · have : r ≤ n := by nlinarith
        nlinarith
      · have hb1 : β ≤ -1 := by omega
        nlinarith
  subst hα0
  have en' : n = β * newr := by rw [en]; ring
  have ed' : d = β * newt := by rw [ed]; ring
  have hbd : β ∣ (Int.gcd n d : ℤ) := Int.dvd_coe_gcd ⟨newr, en'⟩ ⟨newt, ed'⟩
  rw [hcop] at hbd
  have hβpos : 0 < β := by nlinarith
  have : β = 1 := by
    have := Int.le_of_dvd (by norm_num) hbd
    norm_num at this
    omega
  subst this
  constructor <;> omega

/-- ratrec.Complete.ratrec_complete -/
theorem ratrec_complete (p r t newr newt a n d : ℤ) (hp : 0 < p) (hodd : p % 2 = 1)
    (h0 : 0 ≤ newr) (hnt : newt ≠ 0) (hlt : newr < r) (hsign : t * newt ≤ 0)
    (hdet : r * |newt| + newr * |t| = p) (hr : p ∣ r - a * t) (hnr : p ∣ newr - a * newt)
    (hsmall : 2 * (newr * newr) ≤ p) (hbig : p < 2 * (r * r))
    (hd : 0 < d) (hcop : Int.gcd n d = 1) (hnd : p ∣ n - a * d)
    (hn2 : 2 * (n * n) ≤ p) (hd2 : 2 * (d * d) ≤ p) :
    (newt > 0 → newr = n ∧ newt = d) ∧ (newt < 0 → -newr = n ∧ -newt = d) := by
  constructor
  · intro h
    have ht : t ≤ 0 := by nlinarith
    rw [abs_of_pos h, abs_of_nonpos ht] at hdet
    exact ratrec_pos p r t newr newt a n d hp hodd h0 h ht (by linarith) hr hnr hsmall hbig (by omega) hd hcop hnd hn2 hd2
  · intro h
    have ht : 0 ≤ t := by nlinarith
    rw [abs_of_neg h, abs_of_nonneg ht] at hdet
    have := ratrec_pos p r (-t) newr (-newt) (-a) (-n) d hp hodd h0 (by omega) (by omega) (by linarith)
      (by have e : r - -a * -t = r - a * t := by ring
          rw [e]; exact hr)
      (by have e : newr - -a * -newt = newr - a * newt := by ring
          rw [e]; exact hnr) hsmall hbig (by omega) hd (by rw [Int.neg_gcd]; exact hcop)
      (by have e : -n - -a * d = -(n - a * d) := by ring
          rw [e]; exact (dvd_neg).mpr hnd) (by linarith) hd2
    omega

/-- rat.Rat.reduced_coprime -/
theorem reduced_coprime (n d a b : ℤ) (hd : d ≠ 0) (hn : n = (Int.gcd n d : ℤ) * a) (hdd : d = (Int.gcd n d : ℤ) * b) :
    Int.gcd a b = 1 := by
  have hg : 0 < Int.gcd n d := Int.gcd_pos_of_ne_zero_right n hd
  have h := Int.gcd_mul_left (Int.gcd n d : ℤ) a b
  rw [← hn, ← hdd] at h
  simp only [Int.natAbs_natCast] at h
  have : Int.gcd n d * 1 = Int.gcd n d * Int.gcd a b := by rw [mul_one]; exact h
  exact (Nat.eq_of_mul_eq_mul_left hg this).symm

/-- rat.Rat.canon_unique -/
theorem canon_unique (a b c d : ℤ) (hb : 0 < b) (hd : 0 < d) (h1 : Int.gcd a b = 1) (h2 : Int.gcd c d = 1)
    (h : a * d = c * b) : a = c ∧ b = d := by
  have bd : b ∣ d := by
    have : b ∣ a * d := ⟨c, by rw [h]; ring⟩
    exact Int.dvd_of_dvd_mul_right_of_gcd_one this (by rw [Int.gcd_comm]; exact h1)
  have db : d ∣ b := by
    have : d ∣ c * b := ⟨a, by rw [← h]; ring⟩
    exact Int.dvd_of_dvd_mul_right_of_gcd_one this (by rw [Int.gcd_comm]; exact h2)
  have e : b = d := Int.dvd_antisymm (by omega) (by omega) bd db
  subst e
  exact ⟨mul_right_cancel₀ (by omega) h, rfl⟩
