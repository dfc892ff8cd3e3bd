
/-! what construct stores is aligned -/

namespace Formats

theorem prods_length (parms : ami_parms) (ext : ami_vars) (k : ℤ) (g : List g_struct) (p : pole_struct) :
    (prods k g p).length = (poles k g p).length := by
  obtain ⟨h1, h2, h3⟩ := location parms ext True True True k ⟨1, [], g⟩ p
  change (signs k g p).length = (poles k g p).length at h2
  have e1 := congrArg List.length h1
  have e3 := congrArg List.length h3
  simp only [List.length_map, List.length_zipWith] at e1 e3
  change _ = (prods k g p).length at e1
  change _ = min (signs k g p).length (poles k g p).length at e3
  omega

theorem sumTo_len {α β : Type} [Inhabited α] (v : List α) (F : α → List β) : sumTo (len v) (fun i => len (F (get v i))) = len (v.flatMap F) := by
  unfold sumTo len
  rw [Int.toNat_natCast, Finset.sum_range, List.length_flatMap]
  push_cast
  rw [← List.sum_ofFn]
  congr 1
  apply List.ext_getElem
  · simp
  · intro i h1 h2
    simp at h1
    simp [get_lt v i h1]

theorem sumTo_congr_int (n : ℤ) (f g : ℤ → ℤ) (h : ∀ i : ℕ, (i : ℤ) < n → f i = g i) : sumTo n f = sumTo n g := by
  unfold sumTo
  refine Finset.sum_congr rfl fun i hi => h i ?_
  have := Finset.mem_range.mp hi
  omega

theorem level_P (R0 : List g_struct) (d : Prop) (parms : ami_parms) (ext : ami_vars) (n k : ℕ) (hk : k < n) :
    get (construct_P n R0 d) (k : ℤ) = (get (construct_R n R0 d) (k : ℤ)).map fun g => (find_poles k g d).flatMap (poles k g) := by
  rw [(construct_at R0 d parms ext n).2 k (by omega)]
  unfold construct_P
  rw [get_flatTo_unit _ _ _ (by omega)]
  have := (construct_at R0 d parms ext k).2 k le_rfl
  unfold construct_R at this
  rw [this, level_poles_eq]

theorem level_S (R0 : List g_struct) (d : Prop) (parms : ami_parms) (ext : ami_vars) (n k : ℕ) (hk : k < n) :
    get (construct_S n R0 d) (k : ℤ) = (get (construct_R n R0 d) (k : ℤ)).map fun g => (find_poles k g d).flatMap (signs k g) := by
  rw [(construct_at R0 d parms ext n).2 k (by omega)]
  unfold construct_S
  rw [get_flatTo_unit _ _ _ (by omega)]
  have := (construct_at R0 d parms ext k).2 k le_rfl
  unfold construct_R at this
  rw [this, level_signs_eq]

theorem level_R (R0 : List g_struct) (d : Prop) (parms : ami_parms) (ext : ami_vars) (n k : ℕ) (hk : k < n) :
    get (construct_R n R0 d) ((k : ℤ) + 1) = (get (construct_R n R0 d) (k : ℤ)).flatMap fun g => (find_poles k g d).flatMap (prods k g) := by
  have h1 := (construct_at R0 d parms ext n).2 (k + 1) (by omega)
  have h0 := (construct_at R0 d parms ext n).2 k (by omega)
  push_cast at h1
  have st : construct_terms ((k : ℤ) + 1) R0 d = integrate_step k (construct_terms k R0 d) d := by unfold construct_terms; rw [foldTo_succ]
  rw [h1, h0, st, step_products parms ext, next_eq]

theorem constructed_is_aligned (n : ℤ) (hn : 0 ≤ n) (R0 : List g_struct) (d : Prop) :
    stored n (construct_R n R0 d) (construct_P n R0 d) (construct_S n R0 d) := by
  obtain ⟨n, rfl⟩ : ∃ k : ℕ, n = k := ⟨n.toNat, by omega⟩
  let parms : ami_parms := default
  let ext : ami_vars := default
  obtain ⟨hl, hg⟩ := construct_at R0 d parms ext n
  have hP : len (construct_P n R0 d) = n := by unfold construct_P; rw [flatTo_unit]; simp [len]
  have hS : len (construct_S n R0 d) = n := by unfold construct_S; rw [flatTo_unit]; simp [len]
  have hR0 : get (construct_R n R0 d) 0 = [R0] := by
    have := hg 0 (by omega)
    simpa [construct_terms, foldTo_zero] using this
  unfold stored exTo
  refine ⟨?_, ?_, by omega, by omega, ?_, ?_, ?_, ?_⟩
  · rw [hR0]; simp [len]
  · have : len (construct_R n R0 d) = n + 1 := by simp [len, hl]
    omega
  · rintro ⟨k, hk, j, hj, h⟩
    apply h
    have hk : k < n := by omega
    rw [level_P R0 d parms ext n k hk, level_S R0 d parms ext n k hk, get_map _ _ _ hj, get_map _ _ _ hj]
    have : ∀ g, ((find_poles k g d).flatMap (signs k g)).length = ((find_poles k g d).flatMap (poles k g)).length := by
      intro g; simp [List.length_flatMap, signs_poles_length _ _ _ parms ext]
    simp [len, this]
  · rintro ⟨k, hk, h⟩
    apply h
    rw [level_P R0 d parms ext n k (by omega), len_map]; omega
  · rintro ⟨k, hk, h⟩
    apply h
    rw [level_S R0 d parms ext n k (by omega), len_map]; omega
  · rintro ⟨k, hk, h⟩
    apply h
    have hk : k < n := by omega
    rw [show (1 : ℤ) + (k : ℤ) = (k : ℤ) + 1 by ring, level_R R0 d parms ext n k hk, level_P R0 d parms ext n k hk]
    rw [sumTo_congr_int _ _ (fun i => len ((fun g => (find_poles k g d).flatMap (poles k g)) (get (get (construct_R n R0 d) k) i)))
      (fun i hi => by rw [get_map _ _ _ hi])]
    rw [sumTo_len _ (fun g => (find_poles k g d).flatMap (poles k g))]
    have : ∀ g, ((find_poles k g d).flatMap (prods k g)).length = ((find_poles k g d).flatMap (poles k g)).length := by
      intro g; simp [List.length_flatMap, prods_length parms ext]
    simp [len, List.length_flatMap, this]

end Formats
