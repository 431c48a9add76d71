import Mathlib.Tactic.Ring
import Mathlib.Tactic.LinearCombination
import Mathlib.Tactic.FieldSimp
import Mathlib.Algebra.Field.Basic

/-- Bernstein-Lange, Theorem 3.3: on x^2 + y^2 = 1 + d x^2 y^2 with d a non-square (characteristic not 2), the
denominators of the Edwards addition law never vanish.  e stands for d x1 x2 y1 y2 = 1 or -1. -/
theorem denominator_ne {F : Type*} [Field F] (h2 : (2 : F) ≠ 0) (d x1 y1 x2 y2 e : F)
    (hd : ¬ ∃ r : F, r * r = d)
    (h1 : x1 * x1 + y1 * y1 = 1 + d * (x1 * x1) * (y1 * y1))
    (h2c : x2 * x2 + y2 * y2 = 1 + d * (x2 * x2) * (y2 * y2))
    (he : e * e = 1) : d * (x1 * x2 * y1 * y2) ≠ e := by
  intro h
  have e0 : e ≠ 0 := by
    intro h0; rw [h0] at he; simp at he
  have p0 : d * (x1 * x2 * y1 * y2) ≠ 0 := by rw [h]; exact e0
  have hx1 : x1 ≠ 0 := by rintro rfl; apply p0; ring
  have hy1 : y1 ≠ 0 := by rintro rfl; apply p0; ring
  have hx2 : x2 ≠ 0 := by rintro rfl; apply p0; ring
  -- (x1 + s e y1)^2 = d x1^2 y1^2 (x2 + s y2)^2 for s = 1 and s = -1
  have key : ∀ s : F, s * s = 1 → (x1 + s * e * y1) * (x1 + s * e * y1) = d * (x1 * y1 * (x2 + s * y2)) * (x1 * y1 * (x2 + s * y2)) := by
    intro s hs
    have hk : (d * (x1 * x2 * y1 * y2)) * (d * (x1 * x2 * y1 * y2)) = 1 := by rw [h]; exact he
    linear_combination h1 - d * x1 * x1 * y1 * y1 * h2c + (y1 * y1 * s * s) * he + (y1 * y1 - d * x1 * x1 * y1 * y1 * y2 * y2) * hs - hk - 2 * s * x1 * y1 * h
  have sq : ∀ s : F, s * s = 1 → x2 + s * y2 = 0 := by
    intro s hs
    by_contra hne
    apply hd
    have hn : x1 * y1 * (x2 + s * y2) ≠ 0 := mul_ne_zero (mul_ne_zero hx1 hy1) hne
    refine ⟨(x1 + s * e * y1) / (x1 * y1 * (x2 + s * y2)), ?_⟩
    have := key s hs
    rw [div_mul_div_comm, this, mul_assoc, mul_div_assoc, div_self (mul_ne_zero hn hn), mul_one]
  have a := sq 1 (by ring)
  have b := sq (-1) (by ring)
  apply hx2
  have : 2 * x2 = 0 := by linear_combination a + b
  rcases mul_eq_zero.mp this with h' | h'
  · exact absurd h' h2
  · exact h'
#print axioms denominator_ne
