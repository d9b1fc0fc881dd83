import Mathlib.Algebra.BigOperators.Fin
import Mathlib.Algebra.Order.BigOperators.Group.Finset
import Mathlib.Data.Fintype.EquivFin
import Mathlib.Order.Interval.Finset.Basic
import Mathlib.Data.Int.Interval
import Mathlib.Tactic.Linarith

/-- Distinct values `f 0 .. f (a-1)`, all among `g 0 .. g (b-1)`: there are at most `b` of them. -/
theorem pigeon (a b : ℤ) (f g : ℤ → ℤ) (hb : 0 ≤ b)
    (hf : ∀ k l, 0 ≤ k ∧ k < l ∧ l < a → f k ≠ f l)
    (hfg : ∀ k, 0 ≤ k ∧ k < a → ∃ l, (0 ≤ l ∧ l < b) ∧ f k = g l) : a ≤ b := by
  have h1 : ((Finset.Ico 0 a).image f).card = (Finset.Ico 0 a).card := by
    apply Finset.card_image_of_injOn
    intro k hk l hl h
    simp only [Finset.coe_Ico, Set.mem_Ico] at hk hl
    rcases lt_trichotomy k l with c | c | c
    · exact absurd h (hf k l ⟨hk.1, c, hl.2⟩)
    · exact c
    · exact absurd h.symm (hf l k ⟨hl.1, c, hk.2⟩)
  have h2 : (Finset.Ico 0 a).image f ⊆ (Finset.Ico 0 b).image g := by
    intro y hy
    simp only [Finset.mem_image, Finset.mem_Ico] at hy ⊢
    obtain ⟨k, hk, rfl⟩ := hy
    obtain ⟨l, hl, e⟩ := hfg k hk
    exact ⟨l, hl, e.symm⟩
  have h3 := Finset.card_le_card h2
  have h4 : ((Finset.Ico 0 b).image g).card ≤ (Finset.Ico 0 b).card := Finset.card_image_le
  simp only [h1, Int.card_Ico] at h3 h4
  omega

/-- A one-to-one assignment along tight edges of a feasible labelling is a permutation, and no other
permutation has a larger total weight. -/
theorem optimal (n : ℕ) (w : Fin n → Fin n → ℤ) (lx ly : Fin n → ℤ) (p : Fin n → Fin n)
    (distinct : ∀ i k, i < k → p i ≠ p k)
    (feasible : ∀ i j, lx i + ly j ≥ w i j)
    (tight : ∀ i, lx i + ly (p i) = w i (p i)) :
    Function.Bijective p ∧ ∀ s : Equiv.Perm (Fin n), ∑ i, w i (s i) ≤ ∑ i, w i (p i) := by
  have inj : Function.Injective p := by
    intro i k h
    rcases lt_trichotomy i k with c | c | c
    · exact absurd h (distinct i k c)
    · exact c
    · exact absurd h.symm (distinct k i c)
  have bij : Function.Bijective p := Finite.injective_iff_bijective.mp inj
  refine ⟨bij, fun s => ?_⟩
  have e1 : ∑ i, ly (p i) = ∑ i, ly i := Equiv.sum_comp (Equiv.ofBijective p bij) ly
  have e2 : ∑ i, ly (s i) = ∑ i, ly i := Equiv.sum_comp s ly
  calc ∑ i, w i (s i) ≤ ∑ i, (lx i + ly (s i)) := Finset.sum_le_sum fun i _ => feasible i (s i)
    _ = ∑ i, (lx i + ly (p i)) := by rw [Finset.sum_add_distrib, Finset.sum_add_distrib, e1, e2]
    _ = ∑ i, w i (p i) := Finset.sum_congr rfl fun i _ => tight i
