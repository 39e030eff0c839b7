import Mathlib.FieldTheory.Finite.Basic
/-! Mathematical facts used by the Why3 theories, stated with the definitions of Why3's standard library. -/

/-- number.Prime.prime over the integers -/
def wprime (p : ℤ) : Prop := 2 ≤ p ∧ ∀ n : ℤ, 1 < n → n < p → ¬ (n ∣ p)

theorem wprime_prime {p : ℤ} (h : wprime p) : ∃ q : ℕ, (q : ℤ) = p ∧ q.Prime := by
  obtain ⟨h2, h⟩ := h
  refine ⟨p.toNat, by omega, ?_⟩
  rw [Nat.prime_def_lt]
  refine ⟨by omega, fun m hm hd => ?_⟩
  by_contra hne
  have hm0 : m ≠ 0 := by
    rintro rfl
    have := Nat.eq_zero_of_zero_dvd hd
    omega
  apply h (m : ℤ) (by omega) (by omega)
  have := Int.natCast_dvd_natCast.mpr hd
  rwa [Int.toNat_of_nonneg (by omega)] at this

/-- ffmod.Fermat.fermat -/
theorem fermat (a p : ℤ) (hp : wprime p) (h0 : 0 < a) (h1 : a < p) : a ^ (p - 1).toNat % p = 1 := by
  obtain ⟨q, rfl, hq⟩ := wprime_prime hp
  have hc : IsCoprime a (q : ℤ) := by
    rw [Int.isCoprime_iff_gcd_eq_one, Int.gcd_comm]
    have : Nat.Coprime q a.natAbs := by
      rw [Nat.Prime.coprime_iff_not_dvd hq]
      intro hd
      have := Nat.le_of_dvd (by omega) hd
      omega
    exact this
  have := Int.ModEq.pow_card_sub_one_eq_one hq hc
  have e : ((q : ℤ) - 1).toNat = q - 1 := by omega
  rw [e]
  have h := this
  unfold Int.ModEq at h
  rw [h]
  exact Int.emod_eq_of_lt (by norm_num) (by have := hq.two_le; omega)
