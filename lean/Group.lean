import Mathlib.AlgebraicGeometry.EllipticCurve.Affine.Point

/-! The chord-and-tangent formulas used as the meaning of point addition (engine/tasks.py, `chord`, `tangent`)
are the addition of the group of points of y^2 = x^3 + a x + b: an abelian group by Mathlib. -/

open WeierstrassCurve

variable {F : Type*} [Field F] [DecidableEq F]

/-- y^2 = x^3 + a x + b -/
def short (a b : F) : Affine F := { a₁ := 0, a₂ := 0, a₃ := 0, a₄ := a, a₆ := b }

example (a b : F) : AddCommGroup (short a b).Point := inferInstance

omit [DecidableEq F] in
theorem on_curve (a b x y : F) : (short a b).Equation x y ↔ y ^ 2 = x ^ 3 + a * x + b := by
  rw [Affine.equation_iff]; simp [short]

omit [DecidableEq F] in
private theorem lift {W : Affine F} {P : W.Point} {x y x' y' : F} {h : W.Nonsingular x y} (e : P = .some x y h)
    (hx : x = x') (hy : y = y') : ∃ h', P = .some x' y' h' := by
  subst hx hy; exact ⟨h, e⟩

theorem chord (a b x₁ y₁ x₂ y₂ : F) (h₁ : (short a b).Nonsingular x₁ y₁)
    (h₂ : (short a b).Nonsingular x₂ y₂) (hx : x₁ ≠ x₂) :
    ∃ h, Affine.Point.some _ _ h₁ + Affine.Point.some _ _ h₂ = Affine.Point.some
      (((y₁ - y₂) / (x₁ - x₂)) ^ 2 - x₁ - x₂)
      ((y₁ - y₂) / (x₁ - x₂) * (x₁ - (((y₁ - y₂) / (x₁ - x₂)) ^ 2 - x₁ - x₂)) - y₁) h := by
  refine lift (Affine.Point.add_of_X_ne (h₁ := h₁) (h₂ := h₂) hx) ?_ ?_ <;>
  · rw [Affine.slope_of_X_ne hx]
    simp only [Affine.addX, Affine.addY, Affine.negAddY, Affine.negY, short]
    ring

theorem tangent (a b x y : F) (h : (short a b).Nonsingular x y) (hy : y ≠ -y) :
    ∃ h', Affine.Point.some _ _ h + Affine.Point.some _ _ h = Affine.Point.some
      (((3 * x ^ 2 + a) / (2 * y)) ^ 2 - x - x)
      ((3 * x ^ 2 + a) / (2 * y) * (x - (((3 * x ^ 2 + a) / (2 * y)) ^ 2 - x - x)) - y) h' := by
  have hy' : y ≠ (short a b).negY x y := by simpa [Affine.negY, short] using hy
  have d : y - (-y - 0 * x - 0) = 2 * y := by ring
  have n : 3 * x ^ 2 + 2 * 0 * x + a - 0 * y = 3 * x ^ 2 + a := by ring
  refine lift (Affine.Point.add_self_of_Y_ne (h₁ := h) hy') ?_ ?_ <;>
  · rw [Affine.slope_of_Y_ne rfl hy']
    simp only [Affine.addX, Affine.addY, Affine.negAddY, Affine.negY, short]
    rw [d, n]
    ring

theorem opposite (a b x y : F) (h₁ : (short a b).Nonsingular x y) (h₂ : (short a b).Nonsingular x (-y)) :
    Affine.Point.some _ _ h₁ + Affine.Point.some _ _ h₂ = 0 := by
  apply Affine.Point.add_of_Y_eq rfl
  simp [Affine.negY, short]

/-- a group whose order is prime is cyclic: every point is a multiple of any finite one, unique modulo the order -/
theorem multiples {G : Type*} [AddCommGroup G] (n : ℕ) [Fact n.Prime] (hn : Nat.card G = n) (g : G) (hg : g ≠ 0) (q : G) :
    ∃ k : ℕ, k < n ∧ k • g = q ∧ ∀ j : ℕ, j • g = q → j % n = k := by
  have : Finite G := Nat.finite_of_card_ne_zero (by rw [hn]; exact (Fact.out : n.Prime).ne_zero)
  have ho : addOrderOf g = n := by
    have := addOrderOf_dvd_natCard g
    rw [hn] at this
    rcases (Nat.dvd_prime Fact.out).mp this with h | h
    · exact absurd (AddMonoid.addOrderOf_eq_one_iff.mp h) hg
    · exact h
  have hz : q ∈ AddSubgroup.zmultiples g := by
    rw [zmultiples_eq_top_of_prime_card hn hg]; trivial
  obtain ⟨k, hk⟩ := mem_multiples_iff_mem_zmultiples.mpr hz
  have hk : k • g = q := hk
  refine ⟨k % n, Nat.mod_lt _ (Fact.out : n.Prime).pos, ?_, ?_⟩
  · rw [← ho, mod_addOrderOf_nsmul, hk]
  · intro j hj
    have := (nsmul_inj_mod (n := j) (m := k) (x := g)).mp (hj.trans hk.symm)
    rwa [ho] at this

/-- an abelian group with an element of prime order n, fewer than 3n elements and none of order two has n elements -/
theorem order_eq {G : Type*} [AddCommGroup G] [Finite G] (n : ℕ) [hp : Fact n.Prime] (g : G) (hg : g ≠ 0) (hn : n • g = 0)
    (hc : Nat.card G < 3 * n) (h2 : ∀ q : G, q + q = 0 → q = 0) : Nat.card G = n := by
  have ho : addOrderOf g = n := addOrderOf_eq_prime hn hg
  obtain ⟨k, hk⟩ : n ∣ Nat.card G := ho ▸ addOrderOf_dvd_natCard g
  have hpos : 0 < Nat.card G := Nat.card_pos
  have hnp := hp.out.pos
  have hk3 : k < 3 := by
    rw [hk, mul_comm] at hc; exact Nat.lt_of_mul_lt_mul_right hc
  have hk0 : k ≠ 0 := by rintro rfl; simp at hk; omega
  have hk2 : k ≠ 2 := by
    rintro rfl
    have : Fact (Nat.Prime 2) := ⟨Nat.prime_two⟩
    obtain ⟨q, hq⟩ := exists_prime_addOrderOf_dvd_card' (G := G) 2 (by rw [hk]; exact ⟨n, by ring⟩)
    have hz : q + q = 0 := by rw [← two_nsmul, ← hq]; exact addOrderOf_nsmul_eq_zero q
    have := h2 q hz
    rw [this] at hq; simp at hq
  have : k = 1 := by omega
  rw [hk, this, mul_one]

/-- at most two points have a given abscissa -/
theorem card_le [Fintype F] (a b : F) : Nat.card (short a b).Point ≤ 2 * Fintype.card F + 1 := by
  classical
  let s : Finset (F × F) := Finset.univ.filter fun q => q.2 ^ 2 = q.1 ^ 3 + a * q.1 + b
  have hs : s.card ≤ 2 * Fintype.card F := by
    have := Finset.card_le_mul_card_image (f := Prod.fst) s 2 (by
      intro x _
      by_cases hr : ∃ r : F, r ^ 2 = x ^ 3 + a * x + b
      · obtain ⟨r, hr⟩ := hr
        refine (Finset.card_le_card (t := {(x, r), (x, -r)}) ?_).trans Finset.card_le_two
        intro q hq
        simp only [s, Finset.mem_filter, Finset.mem_univ, true_and] at hq
        obtain ⟨hq, rfl⟩ := hq
        have : q.2 ^ 2 = r ^ 2 := hq.trans hr.symm
        rcases sq_eq_sq_iff_eq_or_eq_neg.mp this with h | h
        · simp [Prod.ext_iff, h]
        · simp [Prod.ext_iff, h]
      · rw [Finset.card_eq_zero.mpr]
        · omega
        · apply Finset.filter_eq_empty_iff.mpr
          intro q hq e
          simp only [s, Finset.mem_filter, Finset.mem_univ, true_and] at hq
          exact hr ⟨q.2, by rw [hq, e]⟩)
    exact this.trans (Nat.mul_le_mul_left 2 (Finset.card_le_univ _))
  let f : (short a b).Point → Option s := fun P => match P with
    | .zero => none
    | .some x y h => some ⟨(x, y), by
        simp only [s, Finset.mem_filter, Finset.mem_univ, true_and]
        exact (on_curve a b x y).mp h.1⟩
  have hf : Function.Injective f := by
    intro P Q e
    cases P <;> cases Q <;> simp_all [f]
  calc Nat.card (short a b).Point ≤ Nat.card (Option s) := Nat.card_le_card_of_injective f hf
    _ = s.card + 1 := by simp [Nat.card_eq_fintype_card]
    _ ≤ _ := by omega

/-- a point of order two is a root of the right-hand side -/
theorem no_two (a b : F) (h2 : (2 : F) ≠ 0) (hr : ∀ x : F, x ^ 3 + a * x + b ≠ 0) (P : (short a b).Point) (hP : P + P = 0) : P = 0 := by
  cases P with
  | zero => rfl
  | some x y h =>
    exfalso
    have hn := eq_neg_of_add_eq_zero_left hP
    rw [Affine.Point.neg_some, Affine.Point.some.injEq] at hn
    have hy : y = -y := by simpa [Affine.negY, short] using hn.2
    have hy0 : y = 0 := by
      have : 2 * y = 0 := by linear_combination hy
      exact (mul_eq_zero.mp this).resolve_left h2
    have := (on_curve a b x y).mp h.1
    rw [hy0] at this
    exact hr x (by rw [← this]; ring)

/-- the group of the curve has order n -/
theorem curve_order [Fintype F] (a b : F) (n : ℕ) [Fact n.Prime] (h2 : (2 : F) ≠ 0) (hr : ∀ x : F, x ^ 3 + a * x + b ≠ 0)
    (hc : 2 * Fintype.card F + 1 < 3 * n) (g : (short a b).Point) (hg : g ≠ 0) (hn : n • g = 0) :
    Nat.card (short a b).Point = n := by
  have : Finite (short a b).Point := by
    by_contra h
    have hi : Infinite (short a b).Point := not_finite_iff_infinite.mp h
    classical
    let f : (short a b).Point → Option (F × F) := fun P => match P with
      | .zero => none
      | .some x y _ => some (x, y)
    have hf : Function.Injective f := by
      intro P Q e
      cases P <;> cases Q <;> simp_all [f]
    exact h (Finite.of_injective f hf)
  exact order_eq n g hg hn ((card_le a b).trans_lt hc) (no_two a b h2 hr)

/-- every point of the equation is a point of the group when the discriminant does not vanish -/
theorem nonsingular (a b x y : F) (hd : 4 * a ^ 3 + 27 * b ^ 2 ≠ 0) (h2 : (2 : F) ≠ 0) (h : y ^ 2 = x ^ 3 + a * x + b) :
    (short a b).Nonsingular x y := by
  rw [Affine.nonsingular_iff]
  refine ⟨(on_curve a b x y).mpr h, ?_⟩
  by_contra hc
  simp only [short, not_or, not_not] at hc
  obtain ⟨e1, e2⟩ := hc
  have hy : y = 0 := by
    have : 2 * y = 0 := by linear_combination e2
    exact (mul_eq_zero.mp this).resolve_left h2
  have ha : a = -3 * x ^ 2 := by linear_combination -e1
  have hb : b = 2 * x ^ 3 := by
    rw [hy, ha] at h; linear_combination -h
  exact hd (by rw [ha, hb]; ring)
