
/-! optimised evaluation with the data of its own factorisation is plain evaluation, for every stored solution -/

theorem len_flatTo {α : Type} (n : ℤ) (f : ℤ → List α) : len (flatTo n f) = sumTo n fun i => len (f i) := by
  unfold flatTo sumTo len
  rw [List.length_flatMap, Finset.sum_range]
  push_cast
  rw [← List.sum_ofFn]
  congr 1
  apply List.ext_getElem <;> simp

theorem len_nonneg {α : Type} (v : List α) : 0 ≤ len v := by simp [len]

theorem get_singleton {α : Type} [Inhabited α] (x : α) : get [x] 0 = x := by simp [get]

theorem len_dot (s : List (List ℝ)) (f : List (List ℂ)) : len (dot s f) = len s := by
  unfold dot; exact len_flatTo_unit _ (len_nonneg _) _

theorem len_dot_row (s : List (List ℝ)) (f : List (List ℂ)) (i : ℕ) (hi : (i : ℤ) < len s) : len (get (dot s f) (i : ℤ)) = len (get s (i : ℤ)) := by
  unfold dot
  rw [get_flatTo_unit _ _ _ hi]; exact len_flatTo_unit _ (len_nonneg _) _

theorem sumTo_congr_int (n : ℤ) (f g : ℤ → ℤ) (h : ∀ i : ℕ, (i : ℤ) < n → f i = g i) : sumTo n f = sumTo n g := by
  unfold sumTo
  refine Finset.sum_congr rfl fun i hi => h i ?_
  have := Finset.mem_range.mp hi
  omega

theorem stored_levels {n : ℤ} {R : List (List (List g_struct))} {P : List (List (List pole_struct))} {S : List (List (List ℝ))} (h : stored n R P S) :
    len (get R 0) = 1 ∧ ∀ i : ℕ, (i : ℤ) < n → len (get P i) = len (get R i) ∧ len (get S i) = len (get R i) ∧
      (∀ j : ℕ, (j : ℤ) < len (get R i) → len (get (get S i) j) = len (get (get P i) j)) ∧
      len (get R ((i : ℤ) + 1)) = sumTo (len (get R i)) fun j => len (get (get P i) j) := by
  unfold stored exTo at h
  simp only [not_exists, not_and, not_not] at h
  obtain ⟨h0, _, _, _, hrow, hP, hS, hR⟩ := h
  refine ⟨by omega, fun i hi => ⟨?_, ?_, ?_, ?_⟩⟩
  · have := hP i hi; omega
  · have := hS i hi; omega
  · intro j hj; have := hrow i hi j hj; omega
  · have := hR i hi
    rw [show (1 : ℤ) + (i : ℤ) = (i : ℤ) + 1 by ring] at this
    omega

/-- one coefficient per product -/
theorem path_row {n : ℤ} {R : List (List (List g_struct))} {P : List (List (List pole_struct))} {S : List (List (List ℝ))} (h : stored n R P S)
    (parms : ami_parms) (ext : ami_vars) (b db dd : Prop) (k : ℕ) (hk : (k : ℤ) + 1 ≤ n) :
    len (get (path_coeffs parms P S ext b db dd ((k : ℤ) + 1)) 0) = len (get R ((k : ℤ) + 1)) := by
  obtain ⟨h0, hl⟩ := stored_levels h
  unfold path_coeffs
  rw [show (-1 : ℤ) + ((k : ℤ) + 1) = (k : ℤ) by ring]
  induction k with
  | zero =>
    obtain ⟨a, c, d, e⟩ := hl 0 (by push_cast at hk ⊢; omega)
    simp only [Nat.cast_zero] at a c d e ⊢
    rw [foldTo_zero, e, h0]
    unfold level_coeffs
    have h1 : (0 : ℤ) < len (get S 0) := by omega
    have := len_dot_row (get S 0) (fermi (get P 0) parms ext b db dd) 0 (by simpa using h1)
    simp only [Nat.cast_zero] at this
    rw [this]
    have h2 := d 0 (by omega)
    simp only [Nat.cast_zero] at h2
    rw [h2]
    simp [sumTo]
  | succ k ih =>
    have ih' := ih (by push_cast at hk; omega)
    obtain ⟨a, c, d, e⟩ := hl (k + 1) (by push_cast at hk ⊢; omega)
    push_cast at a c d e ⊢
    rw [foldTo_succ, e]
    generalize foldTo (k : ℤ) _ _ = K at ih'
    unfold cross
    rw [get_singleton, len_flatTo, ih']
    refine sumTo_congr_int _ _ _ fun i hi => ?_
    beta_reduce
    rw [len_flatTo_unit _ (len_nonneg _)]
    unfold level_coeffs
    rw [show (1 : ℤ) + (k : ℤ) = (k : ℤ) + 1 by ring, len_dot_row _ _ _ (by omega)]
    exact d i hi

theorem empty_below {n : ℤ} {R : List (List (List g_struct))} {P : List (List (List pole_struct))} {S : List (List (List ℝ))} (h : stored n R P S)
    (i : ℕ) (h0 : len (get R (i : ℤ)) = 0) : ∀ d : ℕ, ((i + d : ℕ) : ℤ) ≤ n → len (get R ((i + d : ℕ) : ℤ)) = 0 := by
  obtain ⟨_, hl⟩ := stored_levels h
  intro d
  induction d with
  | zero => intro _; exact h0
  | succ d ih =>
    intro hd
    have hd' : ((i + d : ℕ) : ℤ) < n := by push_cast at hd ⊢; omega
    obtain ⟨_, _, _, e⟩ := hl (i + d) hd'
    rw [show ((i + (d + 1) : ℕ) : ℤ) = ((i + d : ℕ) : ℤ) + 1 by push_cast; ring, e, ih (by omega)]
    simp [sumTo]

theorem groups_nil (Rn : List (List g_struct)) (h : len Rn = 0) : len (groups (all_refs Rn)) = 0 := by
  have : (all_refs Rn).length = 0 := by rw [len_all_refs]; unfold len at h; omega
  have h2 : len (all_refs Rn) = 0 := by unfold len; omega
  unfold groups
  rw [h2, flatTo_zero]; rfl

theorem optimised_equals_plain (parms : ami_parms) (R : List (List (List g_struct))) (P : List (List (List pole_struct))) (S : List (List (List ℝ)))
    (ext : ami_vars) (b db dd : Prop) (hN : 0 ≤ parms.N_INT_) (h : stored parms.N_INT_ R P S) :
    evaluate_spr_opt parms R P S ext (unique_lines (get R parms.N_INT_)) (leader_refs (all_refs (get R parms.N_INT_)) (groups (all_refs (get R parms.N_INT_))))
      (groups (all_refs (get R parms.N_INT_))) b db dd = evaluate_spr parms R P S ext b db dd := by
  unfold evaluate_spr_opt
  split_ifs with hd hz
  · unfold evaluate_spr
    rw [if_pos hz]
  · obtain ⟨k, hk⟩ : ∃ k : ℕ, parms.N_INT_ = (k : ℤ) + 1 := ⟨(parms.N_INT_ - 1).toNat, by omega⟩
    have hne : len (groups (all_refs (get R parms.N_INT_))) ≠ 0 := by tauto
    have hnot : ¬ exTo ((-1 : ℤ) + parms.N_INT_) (fun i0 => len (get S ((1 : ℤ) + i0)) = 0) := by
      rintro ⟨i, hi, he⟩
      apply hne
      apply groups_nil
      obtain ⟨_, hl⟩ := stored_levels h
      obtain ⟨_, c, _, _⟩ := hl (i + 1) (by push_cast; omega)
      have e0 : len (get R ((i + 1 : ℕ) : ℤ)) = 0 := by
        rw [← c, ← he]; push_cast; rw [add_comm]
      have := empty_below h (i + 1) e0 (k - i) (by rw [hk]; push_cast; omega)
      rw [show (((i + 1) + (k - i) : ℕ) : ℤ) = parms.N_INT_ by rw [hk]; omega] at this
      exact this
    unfold evaluate_spr
    rw [if_neg hz, if_neg hnot]
    apply optimized_star_eq
    rw [hk]
    exact path_row h parms ext b db dd k (by rw [hk])
  · rfl

/-- the lines of the terms of a list -/
def term_products (ts : List term) : List (List g_struct) := ts.map term.g_list

theorem optimised_terms_equal_plain (ts : List term) (parms : ami_parms) (ext : ami_vars) (b db dd : Prop) :
    evaluate_terms_opt ts parms ext (unique_lines (term_products ts)) (leader_refs (all_refs (term_products ts)) (groups (all_refs (term_products ts))))
      (groups (all_refs (term_products ts))) b db dd = evaluate_terms ts parms ext b db dd := by
  unfold evaluate_terms_opt
  split_ifs with hd
  · have hs := lossless_sum ext (term_products ts) fun i => ((get ts i).sign : ℂ) * eval_fprod (get ts i).p_list parms ext b db dd
    simp only [Complex.ofReal_intCast, mul_assoc] at hs ⊢
    rw [hs]
    unfold evaluate_terms
    have hl : len (term_products ts) = len ts := by simp [len, term_products]
    rw [hl]
    unfold sumTo
    rw [Finset.mul_sum]
    refine Finset.sum_congr rfl fun i hi => ?_
    have hi' : i < ts.length := by have := Finset.mem_range.mp hi; unfold len at this; omega
    beta_reduce
    unfold evaluate_term
    rw [eval_gprod_val]
    unfold Q
    have : get (term_products ts) (i : ℤ) = (get ts (i : ℤ)).g_list := by
      rw [get_lt _ _ (by simpa [term_products] using hi'), get_lt _ _ hi']; simp [term_products]
    rw [this]; ring
  · rfl
