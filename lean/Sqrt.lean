import Mathlib.NumberTheory.LegendreSymbol.Basic

/-! For a prime p = 3 (mod 4): n^((p+1)/4) is a square root of n exactly when n is a square. -/

theorem sqrt_three_mod_four (p : ℕ) [Fact p.Prime] (hp : p % 4 = 3) (n : ZMod p) :
    (n ^ ((p + 1) / 4)) ^ 2 = n ↔ IsSquare n := by
  constructor
  · intro h
    exact ⟨n ^ ((p + 1) / 4), by rw [← sq]; exact h.symm⟩
  · intro h
    by_cases hn : n = 0
    · subst hn
      have : (p + 1) / 4 ≠ 0 := by omega
      simp [this]
    · have e := (ZMod.euler_criterion p hn).mp h
      rw [← pow_mul]
      have : (p + 1) / 4 * 2 = p / 2 + 1 := by omega
      rw [this, pow_succ, e, one_mul]

/-- the two roots of a square are opposite -/
theorem roots_opposite (p : ℕ) [Fact p.Prime] (x y : ZMod p) (h : x ^ 2 = y ^ 2) : x = y ∨ x = -y :=
  sq_eq_sq_iff_eq_or_eq_neg.mp h
