/-
Used by pydv/seq.py (`le_bytes`): a number below 256^n has exactly one list of n
bytes whose little-endian value it is, so naming those bytes introduces no
assumption; and by specs with prefix sums (P12, P18): the function S exists and
is monotone when the sizes are not negative.
-/
import Mathlib.Algebra.Order.Ring.Int

def value : List ℕ → ℕ
  | [] => 0
  | b :: l => b + 256 * value l

theorem value_inj : ∀ (a b : List ℕ), a.length = b.length → (∀ x ∈ a, x < 256) → (∀ x ∈ b, x < 256) →
    value a = value b → a = b
  | [], [], _, _, _, _ => rfl
  | x :: a, y :: b, hl, ha, hb, h => by
    have hx := ha x (List.mem_cons_self ..)
    have hy := hb y (List.mem_cons_self ..)
    simp only [value] at h
    have e1 : x = y := by omega
    have e2 : value a = value b := by omega
    have hl' : a.length = b.length := by simpa using hl
    rw [e1, value_inj a b hl' (fun z hz => ha z (List.mem_cons_of_mem _ hz))
      (fun z hz => hb z (List.mem_cons_of_mem _ hz)) e2]

theorem value_exists : ∀ (n v : ℕ), v < 256 ^ n →
    ∃ l : List ℕ, l.length = n ∧ (∀ x ∈ l, x < 256) ∧ value l = v
  | 0, v, h => ⟨[], rfl, by simp, by simp at h; simp [value, h]⟩
  | n + 1, v, h => by
    have h' : v / 256 < 256 ^ n := by
      rw [Nat.div_lt_iff_lt_mul (by decide)]; rw [Nat.pow_succ] at h; exact h
    obtain ⟨l, hl, hb, hv⟩ := value_exists n (v / 256) h'
    refine ⟨v % 256 :: l, by simp [hl], ?_, ?_⟩
    · intro x hx
      rcases List.mem_cons.mp hx with rfl | hx
      · exact Nat.mod_lt _ (by decide)
      · exact hb x hx
    · simp only [value, hv]; omega

theorem bytes_of_number (n v : ℕ) (h : v < 256 ^ n) :
    ∃ l : List ℕ, (l.length = n ∧ (∀ x ∈ l, x < 256) ∧ value l = v) ∧
      ∀ l' : List ℕ, (l'.length = n ∧ (∀ x ∈ l', x < 256) ∧ value l' = v) → l' = l := by
  obtain ⟨l, hl, hb, hv⟩ := value_exists n v h
  exact ⟨l, ⟨hl, hb, hv⟩, fun l' ⟨hl', hb', hv'⟩ => value_inj l' l (by rw [hl, hl']) hb' hb (by rw [hv, hv'])⟩

theorem prefix_sum (size : ℕ → ℤ) :
    ∃ S : ℕ → ℤ, S 0 = 0 ∧ (∀ k, S (k + 1) = S k + size k) ∧
      ((∀ k, 0 ≤ size k) → ∀ i j, i ≤ j → S i ≤ S j) := by
  refine ⟨fun n => Nat.rec 0 (fun k s => s + size k) n, rfl, fun k => rfl, ?_⟩
  intro pos i j h
  induction h with
  | refl => exact le_refl _
  | @step m hm ih =>
    exact le_trans ih (le_add_of_nonneg_right (pos m))

#print axioms bytes_of_number
#print axioms prefix_sum
