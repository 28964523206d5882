import Mathlib.LinearAlgebra.Lagrange

/-! The lemma that joins C18 (shares are values of a polynomial of degree below the threshold) and the
verified result of reconstruction (C17): the formula computed by `reconSecret` is the value at zero. -/

open Polynomial Finset in
theorem reconstruct {F : Type*} [Field F] {ι : Type*} [DecidableEq ι] (s : Finset ι) (x : ι → F)
    (hx : Set.InjOn x s) (f : F[X]) (hf : f.degree < s.card) :
    ∑ i ∈ s, f.eval (x i) * (∏ j ∈ s.erase i, x j) / (∏ j ∈ s.erase i, (x j - x i)) = f.eval 0 := by
  conv_rhs => rw [Lagrange.eq_interpolate hx hf]
  rw [Lagrange.interpolate_apply, eval_finsetSum]
  refine Finset.sum_congr rfl fun i hi => ?_
  rw [eval_mul, eval_C, Lagrange.basis, eval_prod, mul_div_assoc, ← Finset.prod_div_distrib]
  congr 1
  refine Finset.prod_congr rfl fun j hj => ?_
  rw [Lagrange.basisDivisor, eval_mul, eval_C, eval_sub, eval_X, eval_C, zero_sub]
  rw [div_eq_mul_inv, mul_comm, mul_neg, ← neg_mul, ← inv_neg, neg_sub]
