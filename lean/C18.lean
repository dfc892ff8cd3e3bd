
namespace Formats

theorem g_equiv_iff (a b : g_struct) : g_equiv a b ↔ a.alpha_ = b.alpha_ ∧ a.eps_ = b.eps_ := by
  unfold g_equiv exTo
  rw [list_eq_iff, list_eq_iff]
  constructor
  · rintro ⟨h1, h2, h3, h4⟩
    refine ⟨⟨by omega, fun i hi => ?_⟩, ⟨by omega, fun i hi => ?_⟩⟩
    · by_contra hc; exact h3 ⟨i, hi, by omega⟩
    · by_contra hc; exact h4 ⟨i, hi, by omega⟩
  · rintro ⟨⟨h1, h3⟩, ⟨h2, h4⟩⟩
    refine ⟨by omega, by omega, ?_, ?_⟩
    · rintro ⟨i, hi, hc⟩; have := h3 i hi; omega
    · rintro ⟨i, hi, hc⟩; have := h4 i hi; omega

theorem list_neg_iff (a b : List ℤ) : (a = b.map (- ·)) ↔ (len a = len b ∧ ∀ i : ℕ, (i : ℤ) < len a → get a (i : ℤ) = -get b (i : ℤ)) := by
  rw [list_eq_iff, len_map]
  constructor
  · rintro ⟨hl, h⟩; exact ⟨hl, fun i hi => by rw [h i hi, get_map _ _ _ (by omega)]⟩
  · rintro ⟨hl, h⟩; exact ⟨hl, fun i hi => by rw [h i hi, get_map _ _ _ (by omega)]⟩

def same (a b : g_struct) : Prop := a.species_ = b.species_ ∧ a.alpha_ = b.alpha_ ∧ a.eps_ = b.eps_
def opposite (a b : g_struct) : Prop := a.species_ = b.species_ ∧ a.alpha_ = b.alpha_.map (- ·) ∧ a.eps_ = b.eps_.map (- ·)
def zero_line (a : g_struct) : Prop := (∀ x ∈ a.alpha_, x = 0) ∧ ∀ x ∈ a.eps_, x = 0

theorem signed_equiv_iff (a b : g_struct) : g_struct_equiv a b ↔ same a b ∨ opposite a b := by
  unfold g_struct_equiv same opposite exTo
  rw [list_eq_iff, list_eq_iff, list_neg_iff, list_neg_iff]
  constructor
  · rintro ⟨h1, h2, hs, h | h⟩
    · left
      refine ⟨by omega, ⟨by omega, fun i hi => ?_⟩, ⟨by omega, fun i hi => ?_⟩⟩
      · by_contra hc; exact h.1 ⟨i, hi, by omega⟩
      · by_contra hc; exact h.2 ⟨i, hi, by omega⟩
    · right
      refine ⟨by omega, ⟨by omega, fun i hi => ?_⟩, ⟨by omega, fun i hi => ?_⟩⟩
      · by_contra hc; exact h.1 ⟨i, hi, by omega⟩
      · by_contra hc; exact h.2 ⟨i, hi, by omega⟩
  · rintro (⟨hs, ⟨h1, h3⟩, ⟨h2, h4⟩⟩ | ⟨hs, ⟨h1, h3⟩, ⟨h2, h4⟩⟩)
    · refine ⟨by omega, by omega, by omega, Or.inl ⟨?_, ?_⟩⟩
      · rintro ⟨i, hi, hc⟩; have := h3 i hi; omega
      · rintro ⟨i, hi, hc⟩; have := h4 i hi; omega
    · refine ⟨by omega, by omega, by omega, Or.inr ⟨?_, ?_⟩⟩
      · rintro ⟨i, hi, hc⟩; have := h3 i hi; omega
      · rintro ⟨i, hi, hc⟩; have := h4 i hi; omega

theorem neg_self (l : List ℤ) (h : l = l.map (- ·)) : ∀ x ∈ l, x = 0 := by
  intro x hx
  obtain ⟨i, hi, rfl⟩ := List.getElem_of_mem hx
  have : l[i] = (l.map (- ·))[i]'(by simpa using hi) := by congr 1
  rw [List.getElem_map] at this
  omega

theorem not_both (a b : g_struct) (hz : ¬ zero_line b) (h1 : same a b) (h2 : opposite a b) : False := by
  obtain ⟨_, ha, he⟩ := h1
  obtain ⟨_, na, ne⟩ := h2
  exact hz ⟨neg_self _ (by rw [← na, ha]), neg_self _ (by rw [← ne, he])⟩

theorem signed_iff (a b : g_struct) (hz : ¬ zero_line b) :
    (g_struct_equiv_sign a b = 1 ↔ same a b) ∧ (g_struct_equiv_sign a b = -1 ↔ opposite a b) ∧ (g_struct_equiv_sign a b = 0 ↔ ¬ same a b ∧ ¬ opposite a b) := by
  have he := signed_equiv_iff a b
  have hs : g_struct_equiv a b → (((¬ (exTo (len (a).alpha_) (fun i0 => (¬ (((-1 : ℤ) * (get (b).alpha_ i0) + (get (a).alpha_ i0)) = 0))))) ∧ (¬ (exTo (len (a).eps_) (fun i0 => (¬ (((-1 : ℤ) * (get (b).eps_ i0) + (get (a).eps_ i0)) = 0)))))) ↔ same a b) := by
    intro h
    have hc := h
    unfold g_struct_equiv at hc
    obtain ⟨h1, h2, h3, _⟩ := hc
    unfold same exTo
    rw [list_eq_iff, list_eq_iff]
    constructor
    · rintro ⟨h4, h5⟩
      refine ⟨by omega, ⟨by omega, fun i hi => ?_⟩, ⟨by omega, fun i hi => ?_⟩⟩
      · by_contra hc; exact h4 ⟨i, hi, by omega⟩
      · by_contra hc; exact h5 ⟨i, hi, by omega⟩
    · rintro ⟨_, ⟨_, h4⟩, ⟨_, h5⟩⟩
      refine ⟨?_, ?_⟩
      · rintro ⟨i, hi, hc⟩; have := h4 i hi; omega
      · rintro ⟨i, hi, hc⟩; have := h5 i hi; omega
  have nb := not_both a b hz
  by_cases h : g_struct_equiv a b
  · have hs := hs h
    have he := he.mp h
    unfold g_struct_equiv_sign
    rw [if_pos h]
    split_ifs with hc
    · have s := hs.mp hc
      refine ⟨by simp [s], ?_, ?_⟩
      · constructor
        · intro x; first | omega | exact absurd x (by norm_num) | (simp at x)
        · intro o; exact (nb s o).elim
      · constructor
        · intro x; first | omega | exact absurd x (by norm_num) | (simp at x)
        · intro x; exact (x.1 s).elim
    · have s : ¬ same a b := fun x => hc (hs.mpr x)
      have o : opposite a b := he.resolve_left s
      refine ⟨?_, by simp [o], ?_⟩
      · constructor
        · intro x; first | omega | exact absurd x (by norm_num) | (simp at x)
        · intro x; exact (s x).elim
      · constructor
        · intro x; first | omega | exact absurd x (by norm_num) | (simp at x)
        · intro x; exact (x.2 o).elim
  · unfold g_struct_equiv_sign
    rw [if_neg h]
    have hn : ¬ same a b ∧ ¬ opposite a b := by
      rw [he] at h; tauto
    refine ⟨?_, ?_, by simp [hn]⟩
    · constructor
      · intro x; first | omega | exact absurd x (by norm_num) | (simp at x)
      · intro x; exact (hn.1 x).elim
    · constructor
      · intro x; first | omega | exact absurd x (by norm_num) | (simp at x)
      · intro x; exact (hn.2 x).elim

theorem pair_perm (a b : List pair) (h : pair_v_equiv a b) : (a.map pair.first).Perm (b.map pair.first) := by
  unfold pair_v_equiv exTo at h
  obtain ⟨hl, hd, hm⟩ := h
  have hl : a.length = b.length := by simp only [len] at hl; omega
  have nd : (a.map pair.first).Nodup := by
    rw [List.nodup_iff_injective_get]
    intro i j hij
    simp only [List.get_eq_getElem, List.getElem_map] at hij
    have hi : (i : ℕ) < a.length := by simpa using i.isLt
    have hj : (j : ℕ) < a.length := by simpa using j.isLt
    by_contra hne
    have hne : (i : ℕ) ≠ (j : ℕ) := fun e => hne (Fin.ext e)
    rcases Nat.lt_or_gt_of_ne hne with hlt | hlt
    · exact hd ⟨j, by simp only [len]; omega, i, by omega, by beta_reduce; rw [get_lt _ _ hi, get_lt _ _ hj]; omega⟩
    · exact hd ⟨i, by simp only [len]; omega, j, by omega, by beta_reduce; rw [get_lt _ _ hi, get_lt _ _ hj]; omega⟩
  have sub : (a.map pair.first) ⊆ (b.map pair.first) := by
    intro x hx
    obtain ⟨r, hr, rfl⟩ := List.mem_map.mp hx
    obtain ⟨i, hi, rfl⟩ := List.getElem_of_mem hr
    by_contra hc
    apply hm
    refine ⟨i, by simp only [len]; omega, ?_⟩
    rintro ⟨k, hk, e⟩
    have hk : k < b.length := by simpa [len] using hk
    beta_reduce at e
    rw [get_lt _ _ hi, get_lt _ _ hk] at e
    exact hc (List.mem_map.mpr ⟨b[k], List.getElem_mem _, by omega⟩)
  exact (nd.subperm sub).perm_of_length_le (by simp [hl])

end Formats
