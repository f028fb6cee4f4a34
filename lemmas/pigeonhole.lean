/-
P06: the case split of sector chains used by specs/P06.py.

`f` is one step of the chain (the entry of the allocation table at a sector),
`inside x` says that x is a sector of the table and not the end mark; there are
at most `n` such numbers.  Then, for every start s, exactly one of

  * the walk leaves `inside` first at some T   (cases `ends` and `leaves`), or
  * it stays inside for ever, and then the tortoise and the hare meet: there is
    K >= 1 with f^[2K] s = f^[K] s              (case `cycle`).
-/
import Mathlib.Logic.Function.Iterate
import Mathlib.Data.Fintype.Pigeonhole
import Mathlib.Data.Fintype.Card
import Mathlib.Data.Nat.Find

theorem shift (f : ℕ → ℕ) (s i p : ℕ) (h : f^[i + p] s = f^[i] s) (j : ℕ) :
    f^[(i + j) + p] s = f^[i + j] s := by
  have e1 : (i + j) + p = j + (i + p) := by omega
  have e2 : i + j = j + i := by omega
  rw [e1, e2, Function.iterate_add_apply, h, ← Function.iterate_add_apply]

theorem period (f : ℕ → ℕ) (s i p : ℕ) (h : f^[i + p] s = f^[i] s) (q j : ℕ) :
    f^[(i + j) + p * q] s = f^[i + j] s := by
  induction q with
  | zero => simp
  | succ q ih =>
    have e : (i + j) + p * (q + 1) = (i + (j + p * q)) + p := by rw [Nat.mul_succ]; omega
    rw [e, shift f s i p h]
    have e' : i + (j + p * q) = (i + j) + p * q := by omega
    rw [e', ih]

theorem meet (f : ℕ → ℕ) (s n : ℕ) (b : ∀ i, f^[i] s < n) :
    ∃ K, 1 ≤ K ∧ f^[2 * K] s = f^[K] s := by
  obtain ⟨a, c, hne, heq⟩ :=
    Finite.exists_ne_map_eq_of_infinite (fun i : ℕ => (⟨f^[i] s, b i⟩ : Fin n))
  have heq' : f^[a] s = f^[c] s := by simpa using heq
  have main : ∀ i j : ℕ, i < j → f^[i] s = f^[j] s → ∃ K, 1 ≤ K ∧ f^[2 * K] s = f^[K] s := by
    intro i j hij h
    obtain ⟨p, rfl⟩ : ∃ p, j = i + p := ⟨j - i, by omega⟩
    have hp : 1 ≤ p := by omega
    refine ⟨p * (i + 1), Nat.mul_pos hp (Nat.succ_pos i), ?_⟩
    have hge : i ≤ p * (i + 1) := by
      calc i ≤ 1 * (i + 1) := by omega
        _ ≤ p * (i + 1) := Nat.mul_le_mul_right _ hp
    obtain ⟨d, hd⟩ : ∃ d, p * (i + 1) = i + d := ⟨p * (i + 1) - i, by omega⟩
    have := period f s i p h.symm (i + 1) d
    rw [← hd] at this
    rw [Nat.two_mul]
    exact this
  rcases Nat.lt_or_gt_of_ne hne with h | h
  · exact main a c h heq'
  · exact main c a h heq'.symm

theorem chains (f : ℕ → ℕ) (s n : ℕ) (inside : ℕ → Prop) (fin : ∀ x, inside x → x < n) :
    (∃ T, ¬ inside (f^[T] s) ∧ ∀ i, i < T → inside (f^[i] s)) ∨
    ((∀ i, inside (f^[i] s)) ∧ ∃ K, 1 ≤ K ∧ f^[2 * K] s = f^[K] s) := by
  classical
  by_cases h : ∃ T, ¬ inside (f^[T] s)
  · left
    exact ⟨Nat.find h, Nat.find_spec h, fun i hi => by
      have := Nat.find_min h hi
      exact not_not.mp this⟩
  · right
    have h' : ∀ i, inside (f^[i] s) := fun i => by
      by_contra hc
      exact h ⟨i, hc⟩
    exact ⟨h', meet f s n (fun i => fin _ (h' i))⟩

/-- before the walk leaves, no sector is met twice (used by case `ends`) -/
theorem no_repetition (f : ℕ → ℕ) (s T : ℕ) (inside : ℕ → Prop)
    (out : ¬ inside (f^[T] s)) (ins : ∀ i, i < T → inside (f^[i] s))
    (i j : ℕ) (hij : i < j) (hj : j ≤ T) : f^[i] s ≠ f^[j] s := by
  intro h
  obtain ⟨d, hd⟩ : ∃ d, T = d + j := ⟨T - j, by omega⟩
  have e : f^[d + i] s = f^[d + j] s := by
    rw [Function.iterate_add_apply, Function.iterate_add_apply, h]
  apply out
  rw [hd, ← e]
  exact ins (d + i) (by omega)

#print axioms chains
#print axioms no_repetition
