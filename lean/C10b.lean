
theorem constructed_optimised_equals_plain (parms : ami_parms) (R0 : List g_struct) (d : Prop) (ext : ami_vars) (b db dd : Prop) (hN : 0 ≤ parms.N_INT_) :
    let R := construct_R parms.N_INT_ R0 d
    let P := construct_P parms.N_INT_ R0 d
    let S := construct_S parms.N_INT_ R0 d
    let Rn := get R parms.N_INT_
    evaluate_spr_opt parms R P S ext (unique_lines Rn) (leader_refs (all_refs Rn) (groups (all_refs Rn))) (groups (all_refs Rn)) b db dd =
      evaluate_terms (construct_terms parms.N_INT_ R0 d) parms ext b db dd ∧
    evaluate_spr_opt parms R P S ext (unique_lines Rn) (leader_refs (all_refs Rn) (groups (all_refs Rn))) (groups (all_refs Rn)) b db dd =
      evaluate_spr parms R P S ext b db dd := by
  have h := optimised_equals_plain parms _ _ _ ext b db dd hN (Formats.constructed_is_aligned parms.N_INT_ hN R0 d)
  exact ⟨by rw [h, Formats.terms_equal_arrays R0 d parms ext b db dd hN], h⟩
